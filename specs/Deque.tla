------------------------------- MODULE Deque -------------------------------
(* Abstract (linearizable) work-stealing deque driven by a fixed client program:      *)
(* one owner executing Ops and a number of thieves, thief t performing Steals[t]      *)
(* steals.  Every operation is a call event, an internal linearization step and a     *)
(* return event; the observable behaviours of the real deque must be behaviours of    *)
(* this module (property C10).                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Progs,   \* sequence of client programs [tag, ops, steals]:
                   \*   ops: sequence over "p" push "o" pop "s" size "e" empty "S" spawn "J" join "D" drain
                   \*   steals: sequence of numbers, the steals performed by each thief
          Weak     \* TRUE: judge executions of the weak memory model (see CanEmpty / CanLost)

VARIABLES prog,    \* the program being run (index into Progs), never changes
          q,       \* the items, oldest first
          next,    \* last pushed item
          pc,      \* owner's position in Ops
          oph,     \* owner phase: "idle", "call", "done"
          ores,    \* result fixed at the owner's linearization point
          spawned, \* thieves started
          pre,     \* items pushed before the thieves were started (known to them)
          th,      \* thief t |-> [n, ph, res, ce, cl]
          taken,   \* number of items obtained
          ttaken,  \* number of items obtained through the top (by a thief, or the last one by the owner)
          otop,    \* the owner's pop in progress has obtained the last item
          ev
vars == <<prog, q, next, pc, oph, ores, spawned, pre, th, taken, ttaken, otop, ev>>

Ops == Progs[prog].ops
Steals == Progs[prog].steals
T == 1..Len(Steals)
Op == IF pc <= Len(Ops) THEN Ops[pc] ELSE "end"
N2S(n) == ToString(n)

Init == /\ prog \in 1..Len(Progs)
        /\ q = <<>> /\ next = 0 /\ pc = 1 /\ oph = "idle" /\ ores = 0 /\ spawned = FALSE /\ pre = 0
        /\ th = [t \in T |-> [n |-> Steals[t], ph |-> "idle", res |-> 0, ce |-> FALSE, cl |-> FALSE]]
        /\ taken = 0 /\ ttaken = 0 /\ otop = FALSE /\ ev = "" 

(* What a thief may report.  Under the weak memory model a thief need not have seen   *)
(* pushes that do not happen before its call, nor need "during the call" coincide     *)
(* with the order in which the executor ran the operations; the newest item may   *)
(* be hidden by a pop in progress.                                                *)
LooksEmpty(Q, popping) == IF Weak THEN \A i \in 1..Len(Q) : Q[i] > pre \/ (popping /\ i = Len(Q)) ELSE Q = <<>>
Popping == Op \in {"o", "D"} /\ oph = "call"

\* bookkeeping for thieves with a call in progress when the deque changes to Q; lost: somebody else took from the top
Mark(TH, Q, who, top) ==
  [t \in T |-> IF TH[t].ph = "call"
               THEN [TH[t] EXCEPT !.ce = @ \/ LooksEmpty(Q, Popping), !.cl = @ \/ (top /\ t # who)]
               ELSE TH[t]]

---------------------------------------------------------------------------
OCall(o, label) == /\ Op = o /\ oph = "idle" /\ oph' = "call" /\ ev' = label
                   /\ th' = [t \in T |-> IF th[t].ph = "call"
                                         THEN [th[t] EXCEPT !.ce = @ \/ LooksEmpty(q, o \in {"o", "D"})] ELSE th[t]]
                   /\ UNCHANGED <<prog, q, next, pc, ores, spawned, pre, taken, ttaken, otop>>
ORet(o, label) == /\ Op = o /\ oph = "done" /\ oph' = "idle" /\ ev' = label
                  /\ pc' = IF o = "D" /\ ores # 0 THEN pc ELSE pc + 1
                  /\ otop' = FALSE
                  /\ UNCHANGED <<prog, q, next, ores, spawned, pre, th, taken, ttaken>>

PushLin == /\ Op = "p" /\ oph = "call" /\ oph' = "done" /\ ev' = ""
           /\ next' = next + 1 /\ q' = Append(q, next + 1) /\ ores' = 0
           /\ pre' = IF spawned THEN pre ELSE next + 1
           /\ UNCHANGED <<prog, pc, spawned, th, taken, ttaken, otop>>

PopLin == /\ Op \in {"o", "D"} /\ oph = "call" /\ oph' = "done" /\ ev' = ""
          /\ IF q = <<>>
             THEN ores' = 0 /\ UNCHANGED <<q, th, taken, ttaken, otop>>
             ELSE /\ ores' = q[Len(q)] /\ q' = SubSeq(q, 1, Len(q) - 1) /\ taken' = taken + 1
                  /\ th' = Mark(th, q', 0, Len(q) = 1)
                  /\ ttaken' = ttaken + IF Len(q) = 1 THEN 1 ELSE 0
                  /\ otop' = (Len(q) = 1)
          /\ UNCHANGED <<prog, next, pc, spawned, pre>>

QueryLin == /\ Op \in {"s", "e"} /\ oph = "call" /\ oph' = "done" /\ ev' = ""
            \* the owner may not have noticed steals yet under the weak memory model
            /\ \E k \in (IF Weak THEN 0..ttaken ELSE {0}) : ores' = Len(q) + k
            /\ UNCHANGED <<prog, q, next, pc, spawned, pre, th, taken, ttaken, otop>>

Spawn == /\ Op = "S" /\ oph = "idle" /\ spawned' = TRUE /\ pc' = pc + 1 /\ ev' = ""
         /\ UNCHANGED <<prog, q, next, oph, ores, pre, th, taken, ttaken, otop>>
Join == /\ Op = "J" /\ oph = "idle" /\ \A t \in T : th[t].n = 0 /\ th[t].ph = "idle"
        /\ pc' = pc + 1 /\ ev' = ""
        /\ UNCHANGED <<prog, q, next, oph, ores, spawned, pre, th, taken, ttaken, otop>>
\* the end of the program: everything pushed has been obtained
End == /\ Op = "end" /\ oph = "idle" /\ q = <<>> /\ pc' = pc + 1 /\ ev' = "end" /\ oph' = "over"
       /\ UNCHANGED <<prog, q, next, ores, spawned, pre, th, taken, ttaken, otop>>

---------------------------------------------------------------------------
SCall(t) == /\ spawned /\ th[t].ph = "idle" /\ th[t].n > 0
            \* an operation that has obtained an item through the top but has not returned is concurrent
            /\ LET other == otop \/ \E u \in T : th[u].ph = "done" /\ th[u].res > 0
               IN th' = [th EXCEPT ![t] = [n |-> @.n, ph |-> "call", res |-> 0, ce |-> LooksEmpty(q, Popping),
                                           cl |-> other \/ (Weak /\ ttaken > 0)]]
            /\ ev' = "st " \o N2S(t)
            /\ UNCHANGED <<prog, q, next, pc, oph, ores, spawned, pre, taken, ttaken, otop>>
\* a successful steal takes the oldest item
SLin(t) == /\ th[t].ph = "call" /\ q # <<>> /\ UNCHANGED otop
           /\ q' = Tail(q) /\ taken' = taken + 1 /\ ttaken' = ttaken + 1
           /\ th' = [Mark(th, q', t, TRUE) EXCEPT ![t].ph = "done", ![t].res = Head(q)]
           /\ ev' = "" /\ UNCHANGED <<prog, next, pc, oph, ores, spawned, pre>>
\* a steal that obtains nothing
SEmpty(t) == /\ th[t].ph = "call" /\ th[t].ce
             /\ th' = [th EXCEPT ![t].ph = "done", ![t].res = 0]
             /\ ev' = "" /\ UNCHANGED <<prog, q, next, pc, oph, ores, spawned, pre, taken, ttaken, otop>>
SLost(t) == /\ th[t].ph = "call" /\ th[t].cl
            /\ th' = [th EXCEPT ![t].ph = "done", ![t].res = -1]
            /\ ev' = "" /\ UNCHANGED <<prog, q, next, pc, oph, ores, spawned, pre, taken, ttaken, otop>>
SRet(t) == /\ th[t].ph = "done"
           /\ th' = [th EXCEPT ![t] = [n |-> @.n - 1, ph |-> "idle", res |-> 0, ce |-> FALSE, cl |-> FALSE]]
           /\ ev' = "sT " \o N2S(t) \o " " \o N2S(th[t].res)
           /\ UNCHANGED <<prog, q, next, pc, oph, ores, spawned, pre, taken, ttaken, otop>>

Next == \/ OCall("p", "pu") \/ PushLin \/ ORet("p", "pU")
        \/ OCall("o", "po") \/ OCall("D", "po") \/ PopLin \/ ORet("o", "pO " \o N2S(ores)) \/ ORet("D", "pO " \o N2S(ores))
        \/ OCall("s", "sz") \/ OCall("e", "em") \/ QueryLin \/ ORet("s", "sZ " \o N2S(ores))
        \/ ORet("e", "eM " \o (IF ores = 0 THEN "1" ELSE "0"))
        \/ Spawn \/ Join \/ End
        \/ \E t \in T : SCall(t) \/ SLin(t) \/ SEmpty(t) \/ SLost(t) \/ SRet(t)
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* every item obtained at most once, none lost
Range(s) == {s[i] : i \in 1..Len(s)}
Conserved == taken + Len(q) = next /\ Cardinality(Range(q)) = Len(q)
Sorted == \A i \in 1..Len(q) - 1 : q[i] < q[i + 1]
=============================================================================
