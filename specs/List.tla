-------------------------------- MODULE List --------------------------------
(* Multi-producer single-consumer submission list (ext::intrusive_list): property C11.             *)
(* Producer p pushes items 1..items[p]; the consumer pops batches until it has everything.         *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Progs     \* sequence of [tag, items |-> <<number of items of producer 1, ...>>]

VARIABLES prog, list, ph, nx, batch, cph, got, ev
vars == <<prog, list, ph, nx, batch, cph, got>>

P == 1..Len(Progs[prog].items)
N(p) == Progs[prog].items[p]
RECURSIVE Total(_)
Total(p) == IF p = 0 THEN 0 ELSE N(p) + Total(p - 1)
L(k, a, b) == k \o " " \o ToString(a) \o " " \o ToString(b)

Init == /\ prog \in 1..Len(Progs) /\ list = <<>> /\ ph = [p \in P |-> "idle"] /\ nx = [p \in P |-> 1]
        /\ batch = <<>> /\ cph = "idle" /\ got = 0 /\ ev = ""

Start(p) == /\ ph[p] = "idle" /\ nx[p] <= N(p) /\ ph' = [ph EXCEPT ![p] = "push"] /\ ev' = L("s", p, nx[p])
            /\ UNCHANGED <<prog, list, nx, batch, cph, got>>
Link(p) == /\ ph[p] = "push" /\ ph' = [ph EXCEPT ![p] = "linked"] /\ list' = Append(list, <<p, nx[p]>>) /\ ev' = ""
           /\ UNCHANGED <<prog, nx, batch, cph, got>>
Done(p) == /\ ph[p] = "linked" /\ ph' = [ph EXCEPT ![p] = "idle"] /\ nx' = [nx EXCEPT ![p] = @ + 1] /\ ev' = L("d", p, nx[p])
           /\ UNCHANGED <<prog, list, batch, cph, got>>
PopStart == /\ cph = "idle" /\ got < Total(Len(Progs[prog].items)) /\ cph' = "pop" /\ ev' = "q"
            /\ UNCHANGED <<prog, list, ph, nx, batch, got>>
Take == /\ cph = "pop" /\ cph' = "use" /\ batch' = list /\ list' = <<>> /\ ev' = ""
        /\ UNCHANGED <<prog, ph, nx, got>>
Use == /\ cph = "use" /\ batch # <<>> /\ batch' = Tail(batch) /\ got' = got + 1 /\ ev' = L("c", Head(batch)[1], Head(batch)[2])
       /\ UNCHANGED <<prog, list, ph, nx, cph>>
PopEnd == /\ cph = "use" /\ batch = <<>> /\ cph' = "idle" /\ ev' = "o"
          /\ UNCHANGED <<prog, list, ph, nx, batch, got>>
End == /\ cph = "idle" /\ got = Total(Len(Progs[prog].items)) /\ list = <<>> /\ \A p \in P : ph[p] = "idle"
       /\ cph' = "end" /\ ev' = "end" /\ UNCHANGED <<prog, list, ph, nx, batch, got>>

Next == \/ \E p \in P : Start(p) \/ Link(p) \/ Done(p)
        \/ PopStart \/ Take \/ Use \/ PopEnd \/ End
Spec == Init /\ [][Next]_<<vars, ev>>

\* every item is in exactly one place, and never before its push began
Once == \A p \in P : \A i \in 1..N(p) :
   LET c(s) == Len(SelectSeq(s, LAMBDA x : x = <<p, i>>))
   IN c(list) + c(batch) <= 1 /\ (c(list) + c(batch) = 1 => i <= nx[p])
PerProducer == \A p \in P : LET s == SelectSeq(batch \o list, LAMBDA x : x[1] = p)
                            IN \A i \in 1..(Len(s) - 1) : s[i + 1][2] = s[i][2] + 1
=============================================================================
