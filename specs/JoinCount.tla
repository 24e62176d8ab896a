------------------------------ MODULE JoinCount ------------------------------
(* The design of a join: a parent forks children, its continuation may be stolen after every fork, and   *)
(* whoever comes last - the parent at the join or a child - continues the parent (property C01).          *)
(* The protocol uses two counters modulo M: steals, written by whoever executes the parent, and joins,    *)
(* which starts at M - 1 and is decremented by children that find the continuation stolen.                *)
(* Correct exactly when a scope cannot have more than M - 2 steals: the library's counters must be wide.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Progs, M

VARIABLES prog, par, n, kids, steals, joins, round, ev
vars == <<prog, par, n, kids, steals, joins, round>>

P == Progs[prog]
Max == M - 1
\* par: "run" executed; "cont" its continuation is queued behind child n; "susp" about to publish the join; "wait"; "done"
\* kids: children that have not finished
Forks == IF round = 1 THEN P.n ELSE 1
Init == prog \in 1..Len(Progs) /\ par = "run" /\ n = 0 /\ kids = {} /\ steals = 0 /\ joins = Max /\ round = 1 /\ ev = ""
Idle == P.w - Cardinality(kids) - (IF par = "run" THEN 1 ELSE 0)

Fork == par = "run" /\ n < Forks /\ par' = "cont" /\ n' = n + 1 /\ kids' = kids \cup {n + 1} /\ ev' = "" /\ UNCHANGED <<prog, steals, joins, round>>
Steal == par = "cont" /\ Idle > 0 /\ par' = "run" /\ steals' = (steals + 1) % M /\ ev' = "" /\ UNCHANGED <<prog, n, kids, joins, round>>
Reset == steals' = 0 /\ joins' = Max
\* child c finishes: it pops its parent's continuation or reports that it has finished
Child(c) == /\ c \in kids /\ kids' = kids \ {c} /\ ev' = ""
            /\ IF par = "cont" /\ c = n THEN par' = "run" /\ UNCHANGED <<steals, joins>>
               ELSE IF joins = 1 THEN par' = "joined" /\ Reset
               ELSE joins' = (joins - 1) % M /\ UNCHANGED <<par, steals>>
            /\ UNCHANGED <<prog, n, round>>
Ready == /\ par = "run" /\ n = Forks /\ ev' = ""
         /\ IF steals = 0 THEN par' = "joined" /\ UNCHANGED <<steals, joins>>
            ELSE IF steals = Max - joins THEN par' = "joined" /\ Reset
            ELSE par' = "susp" /\ UNCHANGED <<steals, joins>>
         /\ UNCHANGED <<prog, n, kids, round>>
Publish == /\ par = "susp" /\ ev' = ""
           /\ IF steals = Max - joins THEN par' = "joined" /\ Reset
              ELSE par' = "wait" /\ joins' = (joins - (Max - steals)) % M /\ UNCHANGED steals
           /\ UNCHANGED <<prog, n, kids, round>>
Joined == /\ par = "joined" /\ ev' = "j " \o ToString(Cardinality(kids))
          /\ IF round = 2 THEN par' = "done" /\ UNCHANGED <<n, round>> ELSE par' = "run" /\ n' = 0 /\ round' = 2
          /\ UNCHANGED <<prog, kids, steals, joins>>
End == par = "done" /\ par' = "end" /\ ev' = "end" /\ UNCHANGED <<prog, n, kids, steals, joins, round>>
Next == Fork \/ Steal \/ Ready \/ Publish \/ Joined \/ End \/ \E c \in kids : Child(c)
Spec == Init /\ [][Next]_<<vars, ev>>

\* everybody has finished when the join is passed, the counters are ready for the next scope, and nothing is stuck
Safe == par \in {"joined", "done", "end"} => kids = {} /\ steals = 0 /\ joins = Max
NoReentry == par \in {"wait", "cont"} => kids # {}
Live == ENABLED Next \/ par = "end"
=============================================================================
