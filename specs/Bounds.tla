------------------------------- MODULE Bounds -------------------------------
(* Busy leaves and memory: property C23, for balanced computations repeated on the same workers.          *)
(* Program: w workers, computations of depth d whose tasks use at most f bytes, repeated reps times.      *)
(* What may be reported are the number of live tasks and live leaves, and the memory held.                *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Progs, MaxLog

VARIABLES prog, rep, live, ev
vars == <<prog, rep, live>>
P == Progs[prog]
L1(k, a) == k \o " " \o ToString(a)
\* bytes a chain of stacklets may hold for l live bytes (Stack.tla, Bounded) and the most that a computation may hold:
\* a chain per worker, and one per suspended task that was stolen from
Chain(l) == 80 * l + 10 * 4096
Serial == P.d * P.f
Most == P.w * Chain(Serial) + P.w * P.d * 10 * 4096
Rest == (P.w + 1) * Chain(0)
Le(k, b) == IF k = 0 THEN TRUE ELSE 2^(k - 1) * 4096 < b

Init == prog \in 1..Len(Progs) /\ rep = 0 /\ live = 0 /\ ev = ""
\* the number of live tasks, and of live tasks without live children, when a task starts
Tasks(n) == n \in 1..(P.w * P.d) /\ live' = 1 /\ ev' = L1("t", n) /\ UNCHANGED <<prog, rep>>
Leaves(n) == live = 1 /\ n \in 1..P.w /\ ev' = L1("l", n) /\ UNCHANGED vars
Held(k) == live = 1 /\ Le(k, Most) /\ ev' = L1("h", k) /\ UNCHANGED vars
\* between two computations
Done(k) == live = 1 /\ rep < P.reps /\ Le(k, Rest) /\ rep' = rep + 1 /\ live' = 0 /\ ev' = L1("r", k) /\ UNCHANGED prog
End == rep = P.reps /\ live = 0 /\ rep' = rep + 1 /\ ev' = "end" /\ UNCHANGED <<prog, live>>
Next == End \/ (\E n \in 1..64 : Tasks(n) \/ Leaves(n)) \/ \E k \in 0..MaxLog : Held(k) \/ Done(k)
Spec == Init /\ [][Next]_<<vars, ev>>
=============================================================================
