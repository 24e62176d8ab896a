------------------------------- MODULE Future -------------------------------
(* Root submission and futures (sync_wait.hpp): property C07.                                       *)
(* Client threads execute operations on their own future slots; workers run the submitted roots.    *)
(* ops: [k, a, b]                                                                                   *)
(*   "s" schedule a root into slot a; b: v returns a value  t throws  n tries to schedule itself     *)
(*                                       x the scheduler throws  m an allocation may fail            *)
(*   "w" wait  "g" get  "d" detach  "v" valid  "x" destroy, leaving the slot without shared state    *)
(*   "m" slot a := move(slot b) (a is without shared state)                                          *)
(*   "S" sync_wait a root, b as for s        "D" detach a root                                       *)
(* The root submitted by operation i of client c is <<c, i>>.                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Progs

VARIABLES prog, pc, ph, slot, fut, root, ev
vars == <<prog, pc, ph, slot, fut, root>>

P == Progs[prog]
Cl == 1..Len(P.ops)
Op(c) == P.ops[c][pc[c]]
Slots == 1..4
Roots == UNION {{<<c, i>> : i \in {j \in 1..Len(P.ops[c]) : P.ops[c][j].k \in {"s", "S", "D"}}} : c \in Cl}
Variant(r) == P.ops[r[1]][r[2]].b
None == <<0, 0>>
Str(r) == ToString(r[1]) \o " " \o ToString(r[2])
L(k, c) == k \o " " \o ToString(c) \o " " \o ToString(pc[c])
Finished(r) == root[r] \in {"value", "threw"}

Init == /\ prog \in 1..Len(Progs) /\ pc = [c \in Cl |-> 1] /\ ph = [c \in Cl |-> 0]
        /\ slot = [c \in Cl |-> [s \in Slots |-> None]]
        /\ fut = [r \in Roots |-> "nowait"] /\ root = [r \in Roots |-> "no"] /\ ev = ""

Active(c) == pc[c] <= Len(P.ops[c])
Step(c) == pc' = [pc EXCEPT ![c] = @ + 1] /\ ph' = [ph EXCEPT ![c] = 0]
SetSlot(c, s, r) == slot' = [slot EXCEPT ![c][s] = r]
Me(c) == <<c, pc[c]>>

\* ---- submission ----
Begin(c) == /\ Active(c) /\ ph[c] = 0 /\ Op(c).k \in {"s", "S", "D"} /\ ph' = [ph EXCEPT ![c] = 1]
            /\ root' = [root EXCEPT ![Me(c)] = "offered"] /\ ev' = L("s", c) /\ UNCHANGED <<prog, pc, slot, fut>>
\* nothing runs if the submission fails
Fail(c) == /\ Active(c) /\ ph[c] = 1 /\ root[Me(c)] = "offered" /\ Op(c).b \in {"x", "m"} /\ root' = [root EXCEPT ![Me(c)] = "failed"]
           /\ ev' = L(IF Op(c).b = "x" THEN "sx" ELSE "sm", c) /\ Step(c) /\ UNCHANGED <<prog, slot, fut>>
Accept(c) == /\ Active(c) /\ ph[c] = 1 /\ Op(c).k \in {"s", "D"} /\ Op(c).b # "x"
             /\ root' = [root EXCEPT ![Me(c)] = IF @ = "offered" THEN "queued" ELSE @]
             /\ IF Op(c).k = "s" THEN SetSlot(c, Op(c).a, Me(c)) ELSE UNCHANGED slot
             /\ Step(c) /\ ev' = L("h", c) /\ UNCHANGED <<prog, fut>>
SyncValue(c) == /\ Active(c) /\ ph[c] = 1 /\ Op(c).k = "S" /\ Op(c).b # "x" /\ root[Me(c)] = "value"
                /\ Step(c) /\ ev' = L("g", c) \o " " \o Str(Me(c)) /\ UNCHANGED <<prog, slot, fut, root>>
SyncThrow(c) == /\ Active(c) /\ ph[c] = 1 /\ Op(c).k = "S" /\ root[Me(c)] = "threw"
                /\ Step(c) /\ ev' = L("t", c) \o " " \o Str(Me(c)) /\ UNCHANGED <<prog, slot, fut, root>>

\* ---- the roots, on some worker ----
Start(r) == /\ root[r] \in {"offered", "queued"} /\ Variant(r) # "x" /\ root' = [root EXCEPT ![r] = "running"] /\ ev' = "b " \o Str(r)
            /\ UNCHANGED <<prog, pc, ph, slot, fut>>
Rejected(r) == /\ root[r] = "running" /\ Variant(r) = "n" /\ root' = [root EXCEPT ![r] = "rejected"] /\ ev' = "n " \o Str(r)
               /\ UNCHANGED <<prog, pc, ph, slot, fut>>
Finish(r) == /\ root[r] = (IF Variant(r) = "n" THEN "rejected" ELSE "running")
             /\ root' = [root EXCEPT ![r] = IF Variant(r) = "t" THEN "threw" ELSE "value"]
             /\ ev' = "e " \o Str(r) /\ UNCHANGED <<prog, pc, ph, slot, fut>>

\* ---- futures ----
Fut(c) == slot[c][Op(c).a]
Ready(c, e) == Active(c) /\ ph[c] = 0 /\ Op(c).k = e
Broken(c) == /\ Active(c) /\ ph[c] = 0 /\ Op(c).k \in {"w", "g"} /\ Fut(c) = None
             /\ Step(c) /\ ev' = L("broken", c) /\ UNCHANGED <<prog, slot, fut, root>>
Wait(c) == /\ Ready(c, "w") /\ Fut(c) # None /\ (fut[Fut(c)] # "nowait" \/ Finished(Fut(c)))
           /\ fut' = [fut EXCEPT ![Fut(c)] = IF @ = "nowait" THEN "ready" ELSE @]
           /\ Step(c) /\ ev' = L("w", c) /\ UNCHANGED <<prog, slot, root>>
Get(c) == /\ Ready(c, "g") /\ Fut(c) # None /\ fut[Fut(c)] # "retrieved" /\ Finished(Fut(c))
          /\ fut' = [fut EXCEPT ![Fut(c)] = "retrieved"] /\ Step(c)
          /\ ev' = L(IF root[Fut(c)] = "threw" THEN "t" ELSE "g", c) \o " " \o Str(Fut(c)) /\ UNCHANGED <<prog, slot, root>>
GetAgain(c) == /\ Ready(c, "g") /\ Fut(c) # None /\ fut[Fut(c)] = "retrieved" /\ Step(c) /\ ev' = L("empty", c)
               /\ UNCHANGED <<prog, slot, fut, root>>
Detach(c) == /\ Ready(c, "d") /\ SetSlot(c, Op(c).a, None) /\ Step(c) /\ ev' = L("d", c) /\ UNCHANGED <<prog, fut, root>>
Valid(c) == /\ Ready(c, "v") /\ Step(c) /\ ev' = L("v", c) \o (IF Fut(c) = None THEN " 0" ELSE " 1")
            /\ UNCHANGED <<prog, slot, fut, root>>
Destroy(c) == /\ Ready(c, "x") /\ (Fut(c) # None => Finished(Fut(c)))
              /\ SetSlot(c, Op(c).a, None) /\ Step(c) /\ ev' = L("x", c) /\ UNCHANGED <<prog, fut, root>>
Move(c) == /\ Ready(c, "m") /\ LET a == Op(c).a
                                     b == Op(c).c
                                 IN slot' = [slot EXCEPT ![c] = [s \in Slots |-> IF s = a THEN slot[c][b] ELSE IF s = b THEN None ELSE slot[c][s]]]
             /\ Step(c) /\ ev' = L("m", c) /\ UNCHANGED <<prog, fut, root>>
\* the futures that are left are destroyed when the client ends
End(c) == /\ pc[c] = Len(P.ops[c]) + 1 /\ \A s \in Slots : slot[c][s] # None => Finished(slot[c][s])
          /\ pc' = [pc EXCEPT ![c] = @ + 1] /\ slot' = [slot EXCEPT ![c] = [s \in Slots |-> None]] /\ ev' = "z " \o ToString(c)
          /\ UNCHANGED <<prog, ph, fut, root>>
AllEnd == /\ \A c \in Cl : pc[c] = Len(P.ops[c]) + 2 /\ ph[c] = 0
          /\ \A r \in Roots : Finished(r) \/ root[r] = "failed"
          /\ ph' = [c \in Cl |-> 9] /\ ev' = "end" /\ UNCHANGED <<prog, pc, slot, fut, root>>

Next == \/ \E c \in Cl : \/ Begin(c) \/ Fail(c) \/ Accept(c) \/ SyncValue(c) \/ SyncThrow(c)
                         \/ Broken(c) \/ Wait(c) \/ Get(c) \/ GetAgain(c) \/ Detach(c) \/ Valid(c) \/ Destroy(c) \/ Move(c) \/ End(c)
        \/ \E r \in Roots : Start(r) \/ Rejected(r) \/ Finish(r)
        \/ AllEnd
Spec == Init /\ [][Next]_<<vars, ev>>

\* a future that was waited for belongs to a finished root; a shared state is owned by at most one future
WaitedFinished == \A r \in Roots : fut[r] # "nowait" => Finished(r)
OneOwner == \A c \in Cl : \A s, t \in Slots : s # t /\ slot[c][s] # None => slot[c][s] # slot[c][t]
FailedNeverRun == \A r \in Roots : root[r] = "failed" => \A c \in Cl : \A s \in Slots : slot[c][s] # r
RunsOnce == [][\A r \in Roots : Finished(r) => root'[r] = root[r]]_vars
=============================================================================
