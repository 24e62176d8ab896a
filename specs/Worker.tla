------------------------------- MODULE Worker -------------------------------
(* Registration of worker threads and submission to them: property C22.                                *)
(* Threads initialise (possibly running out of memory), finalise (possibly the wrong context), submit    *)
(* tasks to workers and fetch what was submitted to them.                                               *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Progs, MaxOps, MaxPend

VARIABLES prog, wk, gen, op, box, n, ev
vars == <<prog, wk, gen, op, box, n>>

T == 1..Progs[prog].threads
\* wk[t]: t is a worker; gen[t]: it has been one; op[t]: the call in progress; box[t]: submitted, not fetched
L1(k, a) == k \o " " \o ToString(a)
L2(k, a, b) == L1(k, a) \o " " \o ToString(b)
Init == /\ prog \in 1..Len(Progs)
        /\ wk = [t \in T |-> FALSE] /\ gen = [t \in T |-> FALSE] /\ op = [t \in T |-> <<"">>]
        /\ box = [t \in T |-> 0] /\ n = 0 /\ ev = ""
Idle(t) == op[t] = <<"">>
AllIdle == \A t \in T : Idle(t)
Set(t, o) == op' = [op EXCEPT ![t] = o]
Count == n < MaxOps /\ n' = (IF MaxOps = 1 THEN n ELSE n + 1) \* 1: any number

\* f: some allocation made by the initialisation fails (if there are that many)
InitCall(t, f) == AllIdle /\ Count /\ Set(t, <<"init", f>>) /\ ev' = L2("i", t, f) /\ UNCHANGED <<prog, wk, gen, box>>
InitOk(t) == /\ op[t][1] = "init" /\ ~wk[t] /\ Set(t, <<"">>) /\ wk' = [wk EXCEPT ![t] = TRUE] /\ gen' = [gen EXCEPT ![t] = TRUE]
             /\ ev' = L2("I", t, 1) /\ UNCHANGED <<prog, box, n>>
InitTwice(t) == op[t][1] = "init" /\ wk[t] /\ Set(t, <<"">>) /\ ev' = L2("I", t, 0) /\ UNCHANGED <<prog, wk, gen, box, n>>
InitFails(t) == op[t] = <<"init", 1>> /\ Set(t, <<"">>) /\ ev' = L2("I", t, 2) /\ UNCHANGED <<prog, wk, gen, box, n>>

\* t finalises the context that u has or had; a worker's submissions have been fetched before
Fin(t, u) == /\ AllIdle /\ gen[u] /\ (wk[t] /\ t = u => box[t] = 0) /\ Count
             /\ LET ok == t = u /\ wk[t] IN
                /\ wk' = IF ok THEN [wk EXCEPT ![t] = FALSE] ELSE wk
                /\ ev' = L2("f", t, u) \o (IF ok THEN " 1" ELSE " 0")
             /\ UNCHANGED <<prog, gen, op, box>>

\* a thread that is no worker submits; the task is there before the notification
Sub(t, u) == /\ Idle(t) /\ ~wk[t] /\ wk[u] /\ Count /\ box[u] < MaxPend
             /\ Set(t, <<"sub", u>>) /\ ev' = L2("s", t, u) /\ UNCHANGED <<prog, wk, gen, box>>
Push(t) == /\ op[t][1] = "sub" /\ Set(t, <<"push", op[t][2]>>) /\ box' = [box EXCEPT ![op[t][2]] = @ + 1]
           /\ ev' = "" /\ UNCHANGED <<prog, wk, gen, n>>
Notify(t) == /\ op[t][1] = "push" /\ Set(t, <<"note">>) /\ ev' = L2("y", t, op[t][2]) /\ UNCHANGED <<prog, wk, gen, box, n>>
SubRet(t) == op[t][1] = "note" /\ Set(t, <<"">>) /\ ev' = L1("S", t) /\ UNCHANGED <<prog, wk, gen, box, n>>

\* a worker fetches all that has been submitted to it
Pop(t) == Idle(t) /\ wk[t] /\ Count /\ Set(t, <<"pop">>) /\ ev' = L1("p", t) /\ UNCHANGED <<prog, wk, gen, box>>
Popped(t) == op[t][1] = "pop" /\ Set(t, <<"got", box[t]>>) /\ box' = [box EXCEPT ![t] = 0] /\ ev' = "" /\ UNCHANGED <<prog, wk, gen, n>>
PopRet(t) == op[t][1] = "got" /\ Set(t, <<"">>) /\ ev' = L2("P", t, op[t][2]) /\ UNCHANGED <<prog, wk, gen, box, n>>

End == AllIdle /\ (\A t \in T : ~wk[t]) /\ n' = MaxOps + 1 /\ n <= MaxOps /\ ev' = "end" /\ UNCHANGED <<prog, wk, gen, op, box>>
Next == \/ End
        \/ \E t \in T : \/ InitCall(t, 0) \/ InitCall(t, 1) \/ InitOk(t) \/ InitTwice(t) \/ InitFails(t)
                        \/ Push(t) \/ Notify(t) \/ SubRet(t) \/ Pop(t) \/ Popped(t) \/ PopRet(t)
                        \/ \E u \in T : Fin(t, u) \/ Sub(t, u)
Spec == Init /\ [][Next]_<<vars, ev>>
\* only workers have submissions
BoxOk == \A t \in T : box[t] > 0 => wk[t]
=============================================================================
