----------------------------- MODULE EventCount -----------------------------
(* The event count (ext::event_count): property C12.                                             *)
(* Threads run little programs over one event count and one monotone counter:                    *)
(*   p prepare_wait   w wait(key)   x cancel_wait   n notify_one   N notify_all   s counter++       *)
(*   c only go on to the following op (w or x) as a user would: if counter < a wait, else cancel    *)
(*   A await(counter >= a)   T await whose condition throws once counter >= a                       *)
(* At the end the main thread lets everything come to rest, reports the threads that sleep,         *)
(* releases them (counter := large, notify_all until all are done).                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Progs,    \* sequence of [tag, ops |-> <<ops of thread 1, ...>>], op: [k, a]
          Weak      \* judge executions with weak-memory values: a condition may read a stale counter

VARIABLES prog, pc, ph,  \* ph[t]: step within the operation
          epoch,         \* number of notifications that have taken effect
          key,           \* key[t]: epoch seen by t's preparation, -1 none
          parked,        \* threads asleep
          cnt, known, pub, \* counter; value thread t is certain to see; value published by notifications
          mph, rep, ev
vars == <<prog, pc, ph, epoch, key, parked, cnt, known, pub, mph, rep>>

T == 1..Len(Progs[prog].ops)
Big == 100
Op(t) == IF pc[t] <= Len(Progs[prog].ops[t]) THEN Progs[prog].ops[t][pc[t]] ELSE [k |-> "end", a |-> 0]
L(k, t) == k \o " " \o ToString(t)
Max(a, b) == IF a > b THEN a ELSE b

Init == /\ prog \in 1..Len(Progs) /\ pc = [t \in T |-> 1] /\ ph = [t \in T |-> 0] /\ epoch = 0 /\ key = [t \in T |-> -1]
        /\ parked = {} /\ cnt = 0 /\ known = [t \in T |-> 0] /\ pub = 0 /\ mph = "run" /\ rep = {} /\ ev = ""

Ph(t, v) == ph' = [ph EXCEPT ![t] = v]
NextOp(t) == pc' = [pc EXCEPT ![t] = @ + 1] /\ Ph(t, 0)
Values(t) == IF Weak THEN known[t]..cnt ELSE {cnt}
MVars == <<mph, rep>>

\* ---- notifications (also by the main thread: t = 0) ----
Wakes(all) == IF all THEN {parked}
              ELSE IF parked = {} THEN {{}} ELSE {s \in SUBSET parked : s # {}} \* at least one

Notify(t, all) == /\ epoch' = epoch + 1
                  /\ \E s \in Wakes(all) : parked' = parked \ s
                  /\ pub' = Max(pub, known[t])
\* a sleeper may be released late: the epoch changed but the wake-up call reaches it afterwards
\* (a thread never parks on a stale key, so parked threads always have key = epoch or are owed a wake-up)

NotifyOp(t) == /\ Op(t).k \in {"n", "N"}
               /\ \/ ph[t] = 0 /\ Ph(t, 1) /\ ev' = L(Op(t).k, t) /\ UNCHANGED <<pc, epoch, parked, known, pub>>
                  \/ /\ ph[t] = 1 /\ Ph(t, 2) /\ ev' = "" /\ Notify(t, Op(t).k = "N")
                     /\ known' = [known EXCEPT ![t] = Max(@, pub)] /\ UNCHANGED pc
                  \/ ph[t] = 2 /\ NextOp(t) /\ ev' = L("d", t) /\ UNCHANGED <<epoch, parked, known, pub>>
               /\ UNCHANGED <<prog, key, cnt, mph, rep>>
SetOp(t) == /\ Op(t).k = "s"
            /\ cnt' = cnt + 1 /\ known' = [known EXCEPT ![t] = cnt + 1] /\ NextOp(t) /\ ev' = L("s", t)
            /\ UNCHANGED <<prog, epoch, key, parked, pub, mph, rep>>

\* ---- the primitive operations ----
Prep(t) == key' = [key EXCEPT ![t] = epoch] /\ known' = [known EXCEPT ![t] = Max(@, pub)]
PrepareOp(t) == /\ Op(t).k = "p"
                /\ \/ ph[t] = 0 /\ Ph(t, 1) /\ ev' = L("p", t) /\ UNCHANGED <<pc, key, known>>
                   \/ ph[t] = 1 /\ Ph(t, 2) /\ Prep(t) /\ ev' = "" /\ UNCHANGED pc
                   \/ ph[t] = 2 /\ NextOp(t) /\ ev' = L("d", t) /\ UNCHANGED <<key, known>>
                /\ UNCHANGED <<prog, epoch, parked, cnt, pub, mph, rep>>
CancelOp(t) == /\ Op(t).k = "x" /\ key[t] # -1 /\ key' = [key EXCEPT ![t] = -1] /\ NextOp(t) /\ ev' = L("x", t)
               /\ UNCHANGED <<prog, epoch, parked, cnt, known, pub, mph, rep>>
\* sleep only while no notification has followed the preparation
Park(t) == key[t] = epoch /\ parked' = parked \cup {t}
Through(t) == key[t] # epoch /\ t \notin parked /\ key' = [key EXCEPT ![t] = -1]
WaitOp(t) == /\ Op(t).k = "w"
             /\ \/ ph[t] = 0 /\ Ph(t, 1) /\ ev' = L("w", t) /\ UNCHANGED <<pc, key, parked>>
                \/ ph[t] = 1 /\ Park(t) /\ Ph(t, 2) /\ ev' = "" /\ UNCHANGED <<pc, key>>
                \/ ph[t] \in {1, 2} /\ Through(t) /\ NextOp(t) /\ ev' = L("d", t) /\ UNCHANGED parked
             /\ UNCHANGED <<prog, epoch, cnt, known, pub, mph, rep>>
\* prepared: look at the counter, then wait or cancel
CondOp(t) == /\ Op(t).k = "c"
             /\ \/ /\ ph[t] = 0
                   /\ \/ (\E v \in Values(t) : v >= Op(t).a) /\ Ph(t, 3)
                      \/ (\E v \in Values(t) : v < Op(t).a) /\ Ph(t, 1)
                   /\ ev' = "" /\ UNCHANGED <<pc, key, parked>>
                \/ ph[t] = 3 /\ key' = [key EXCEPT ![t] = -1] /\ NextOp(t) /\ ev' = L("x", t) /\ UNCHANGED parked
                \/ ph[t] = 1 /\ Park(t) /\ Ph(t, 2) /\ ev' = "" /\ UNCHANGED <<pc, key>>
                \/ ph[t] \in {1, 2} /\ Through(t) /\ NextOp(t) /\ ev' = L("d", t) /\ UNCHANGED parked
             /\ UNCHANGED <<prog, epoch, cnt, known, pub, mph, rep>>

\* ---- await ----
AwaitOp(t) ==
  /\ Op(t).k \in {"A", "T"}
  /\ LET yes == \E v \in Values(t) : v >= Op(t).a
         no == \E v \in Values(t) : v < Op(t).a
         fin == L(IF Op(t).k = "A" THEN "a" ELSE "t", t)
     IN \/ ph[t] = 0 /\ Ph(t, 1) /\ ev' = L(Op(t).k, t) /\ UNCHANGED <<pc, key, parked, known>>
        \/ ph[t] = 1 /\ yes /\ Ph(t, 9) /\ ev' = "" /\ UNCHANGED <<pc, key, parked, known>>
        \/ ph[t] = 1 /\ no /\ Ph(t, 2) /\ ev' = "" /\ UNCHANGED <<pc, key, parked, known>>
        \/ ph[t] = 2 /\ Prep(t) /\ Ph(t, 3) /\ ev' = "" /\ UNCHANGED <<pc, parked>>
        \/ ph[t] = 3 /\ yes /\ Ph(t, 9) /\ ev' = "" /\ UNCHANGED <<pc, key, parked, known>>
        \/ ph[t] = 3 /\ no /\ Ph(t, 4) /\ ev' = "" /\ UNCHANGED <<pc, key, parked, known>>
        \/ ph[t] = 4 /\ Park(t) /\ Ph(t, 5) /\ ev' = "" /\ UNCHANGED <<pc, key, known>>
        \/ ph[t] \in {4, 5} /\ Through(t) /\ Ph(t, 2) /\ ev' = "" /\ UNCHANGED <<pc, parked, known>>
        \/ ph[t] = 9 /\ key' = [key EXCEPT ![t] = -1] /\ NextOp(t) /\ ev' = fin /\ UNCHANGED <<parked, known>>
  /\ UNCHANGED <<prog, epoch, cnt, pub, mph, rep>>

\* ---- main thread ----
Done(t) == Op(t).k = "end"
Rest == \A t \in T : Done(t) \/ t \in parked
Report == /\ mph = "run" /\ Rest /\ \E t \in parked \ rep : (\A u \in parked \ rep : t <= u) /\ rep' = rep \cup {t} /\ ev' = L("b", t)
          /\ UNCHANGED <<prog, pc, ph, epoch, key, parked, cnt, known, pub, mph>>
Settle == /\ mph = "run" /\ Rest /\ rep = parked /\ mph' = "settled" /\ ev' = "rest"
          /\ cnt' = Big
          /\ UNCHANGED <<prog, pc, ph, epoch, key, parked, known, pub, rep>>
Release == /\ mph = "settled" /\ epoch' = epoch + 1 /\ parked' = {} /\ pub' = Big /\ ev' = ""
           /\ \E t \in T : ~Done(t)
           /\ UNCHANGED <<prog, pc, ph, key, cnt, known, mph, rep>>
Quit == /\ mph = "settled" /\ (\A t \in T : Done(t)) /\ mph' = "quit" /\ ev' = "end"
        /\ UNCHANGED <<prog, pc, ph, epoch, key, parked, cnt, known, pub, rep>>

Next == \/ \E t \in T : NotifyOp(t) \/ SetOp(t) \/ PrepareOp(t) \/ CancelOp(t) \/ WaitOp(t) \/ CondOp(t) \/ AwaitOp(t)
        \/ Report \/ Settle \/ Release \/ Quit
Spec == Init /\ [][Next /\ epoch' <= 12]_<<vars, ev>>

\* nobody sleeps although a notification that must reach it has followed its preparation
Asleep == \A t \in parked : key[t] # -1
TypeOK == /\ \A t \in T : key[t] <= epoch
          /\ \A t \in T : (ph[t] = 0 /\ Op(t).k \in {"n", "N", "s", "A", "T", "end"}) => t \notin parked
=============================================================================
