------------------------------- MODULE ForkJoin -------------------------------
(* Continuation-stealing fork-join scheduling of a fixed set of programs, with exceptions,       *)
(* stashing return objects, call/just/sync/eager modifiers, co_new scopes and explicit           *)
(* scheduling.  `ev` is the observable label of the last step ("" : hidden); the traces recorded  *)
(* from the real library must be behaviours of this module (properties C01-C06, C09, C15, C23).   *)
(*                                                                                               *)
(* Program: [tag, w |-> workers, roots |-> <<[t, w]>>, ops |-> <<ops of task 1>>, ...]            *)
(* op: [k |-> kind, a |-> argument]; up[t] is t's parent and the kind of op that creates it;      *)
(* tasks are numbered from 1 here and from 0 in events.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Progs

VARIABLES prog,
          on,    \* on[w]: the task worker w is executing, 0: none
          dq,    \* dq[w]: w's queue of stealable continuations, oldest first
          inb,   \* inb[w]: tasks submitted to w
          st,    \* st[t]: "no" "ready" "run" "cont" "callw" "wait" "inq" "ended" "fin"
          pc,    \* pc[t]: index of the current operation
          ph,    \* ph[t]: "op" or the event t owes: "back" "joined" "moved"
          stolen,\* stolen[t]: the last fork's continuation was taken by somebody else
          nst,   \* nst[t]: some continuation of t was stolen in the present scope
          open,  \* open[t]: forked children that have not finished
          thr,   \* thr[t]: exceptions children (and the task) have left for the next join
          val,   \* val[t]: value returned
          ex,    \* ex[t]: exception t ended with, 0: none
          all,   \* all[t]: live co_new allocations of t
          bad,   \* bad[t]: constructor of the next co_new that throws, 0: none
          sub,   \* roots submitted
          got,   \* roots whose result has been delivered
          ev
vars == <<prog, on, dq, inb, st, pc, ph, stolen, nst, open, thr, val, ex, all, bad, sub, got>>

Seq2Set(s) == {s[i] : i \in 1..Len(s)}
ForkKinds == {"F", "T", "S", "O"}
CallKinds == {"C", "U", "Q", "E", "G"}
ChildKinds == ForkKinds \cup CallKinds
Stashing == {"T", "U", "Q"}

Pr == Progs[prog]
W == 1..Pr.w
Tasks == 1..Len(Pr.ops)
Parent(c) == Pr.up[c].p
Kind(c) == Pr.up[c].k
Op(t) == IF pc[t] <= Len(Pr.ops[t]) THEN Pr.ops[t][pc[t]] ELSE [k |-> "end", a |-> 0]
Lbl1(k, a) == k \o " " \o ToString(a)
Lbl2(k, a, b) == k \o " " \o ToString(a) \o " " \o ToString(b)
Lbl3(k, a, b, c) == Lbl2(k, a, b) \o " " \o ToString(c)
Lbl4(k, a, b, c, d) == Lbl3(k, a, b, c) \o " " \o ToString(d)
Lbl5(k, a, b, c, d, e) == Lbl4(k, a, b, c, d) \o " " \o ToString(e)

Init == /\ prog \in 1..Len(Progs)
        /\ on = [w \in W |-> 0] /\ dq = [w \in W |-> <<>>] /\ inb = [w \in W |-> <<>>]
        /\ st = [t \in Tasks |-> "no"] /\ pc = [t \in Tasks |-> 1] /\ ph = [t \in Tasks |-> "op"]
        /\ stolen = [t \in Tasks |-> FALSE] /\ nst = [t \in Tasks |-> FALSE] /\ open = [t \in Tasks |-> {}] /\ thr = [t \in Tasks |-> {}]
        /\ val = [t \in Tasks |-> 0] /\ ex = [t \in Tasks |-> 0] /\ all = [t \in Tasks |-> 0] /\ bad = [t \in Tasks |-> 0]
        /\ sub = 0 /\ got = 0 /\ ev = ""

---------------------------------------------------------------------------
\* what a child's slot holds after it has finished
Slot(c) == IF st[c] # "fin" THEN 0
           ELSE IF ex[c] = 0 THEN val[c]
           ELSE IF Kind(c) \in {"T", "U"} THEN 1000 * ex[c] ELSE 0
RECURSIVE SumSlots(_, _)
SumSlots(t, i) == IF i = 0 THEN 0
                  ELSE SumSlots(t, i - 1) + (IF Pr.ops[t][i].k \in ChildKinds THEN Slot(Pr.ops[t][i].a + 1) ELSE 0)
Sum(t) == SumSlots(t, IF pc[t] > Len(Pr.ops[t]) THEN Len(Pr.ops[t]) ELSE pc[t])

---------------------------------------------------------------------------
\* main thread
Submit == /\ sub < Len(Pr.roots) /\ sub' = sub + 1
          /\ LET r == Pr.roots[sub + 1] IN
             /\ \E w \in IF r.w = 0 THEN W ELSE {r.w} : inb' = [inb EXCEPT ![w] = Append(@, r.t + 1)]
             /\ st' = [st EXCEPT ![r.t + 1] = "inq"]
          /\ ev' = "" /\ UNCHANGED <<prog, on, dq, pc, ph, stolen, nst, open, thr, val, ex, all, bad, got>>
Deliver == /\ got < Len(Pr.roots) /\ got' = got + 1
           /\ LET t == Pr.roots[got + 1].t + 1 IN
              /\ sub > got
              /\ \/ Pr.roots[got + 1].d /\ ev' = "" \* detached: nobody waits for it
                 \/ /\ ~Pr.roots[got + 1].d /\ st[t] = "fin"
                    /\ ev' = IF ex[t] = 0 THEN Lbl2("R", got + 1, val[t]) ELSE Lbl2("Z", got + 1, ex[t])
           /\ UNCHANGED <<prog, on, dq, inb, st, pc, ph, stolen, nst, open, thr, val, ex, all, bad, sub>>
\* nothing left to do: every worker sleeps (pools that promise it)
Rest == /\ got = Len(Pr.roots) /\ \A w \in W : on[w] = 0 /\ \A t \in Tasks : st[t] \in {"no", "fin"}
        /\ ev' = Lbl1("rest", Pr.w) /\ UNCHANGED vars
Quit == /\ got = Len(Pr.roots) /\ \A w \in W : on[w] = 0 /\ \A i \in 1..Len(Pr.roots) : st[Pr.roots[i].t + 1] = "fin"
        /\ got' = got + 1 /\ ev' = "end"
        /\ UNCHANGED <<prog, on, dq, inb, st, pc, ph, stolen, nst, open, thr, val, ex, all, bad, sub>>

---------------------------------------------------------------------------
\* idle workers
CanSteal(w) == on[w] = 0 /\ dq[w] = <<>>
Take(w) == /\ CanSteal(w) /\ inb[w] # <<>>
           /\ LET t == Head(inb[w]) IN
              /\ on' = [on EXCEPT ![w] = t]
              /\ st' = [st EXCEPT ![t] = IF ph[t] = "moved" THEN "run" ELSE "ready"]
           /\ inb' = [inb EXCEPT ![w] = Tail(@)]
           /\ ev' = "" /\ UNCHANGED <<prog, dq, pc, ph, stolen, nst, open, thr, val, ex, all, bad, sub, got>>
Resume(w, t) == /\ on' = [on EXCEPT ![w] = t] /\ st' = [st EXCEPT ![t] = "run"]
                /\ stolen' = [stolen EXCEPT ![t] = TRUE] /\ nst' = [nst EXCEPT ![t] = TRUE]
Steal(w, v) == /\ v # w /\ CanSteal(w) /\ dq[v] # <<>>
               /\ Resume(w, Head(dq[v])) /\ dq' = [dq EXCEPT ![v] = Tail(@)]
               /\ ev' = "" /\ UNCHANGED <<prog, inb, pc, ph, open, thr, val, ex, all, bad, sub, got>>
\* a worker that gave up its task (context switch, lost join) continues the newest task of its own queue
SelfSteal(w) == /\ on[w] = 0 /\ dq[w] # <<>>
                /\ Resume(w, dq[w][Len(dq[w])]) /\ dq' = [dq EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
                /\ ev' = "" /\ UNCHANGED <<prog, inb, pc, ph, open, thr, val, ex, all, bad, sub, got>>

---------------------------------------------------------------------------
\* the task on worker w
Begin(w, t) == /\ st[t] = "ready" /\ st' = [st EXCEPT ![t] = "run"] /\ ev' = Lbl2("b", t - 1, w)
               /\ UNCHANGED <<prog, on, dq, inb, pc, ph, stolen, nst, open, thr, val, ex, all, bad, sub, got>>

Running(t) == st[t] = "run" /\ ph[t] = "op"
Step(t) == pc' = [pc EXCEPT ![t] = @ + 1] /\ ph' = [ph EXCEPT ![t] = "op"]

ForkOp(w, t) == /\ Running(t) /\ Op(t).k \in ForkKinds
                /\ LET c == Op(t).a + 1 IN
                   /\ st' = [st EXCEPT ![t] = "cont", ![c] = "ready"] /\ ph' = [ph EXCEPT ![t] = "back"]
                   /\ open' = [open EXCEPT ![t] = @ \cup {c}] /\ stolen' = [stolen EXCEPT ![t] = FALSE]
                   /\ dq' = [dq EXCEPT ![w] = Append(@, t)] /\ on' = [on EXCEPT ![w] = c]
                /\ ev' = "" /\ UNCHANGED <<prog, inb, pc, nst, thr, val, ex, all, bad, sub, got>>
CallOp(w, t) == /\ Running(t) /\ Op(t).k \in CallKinds
                /\ LET c == Op(t).a + 1 IN
                   /\ st' = [st EXCEPT ![t] = "callw", ![c] = "ready"] /\ ph' = [ph EXCEPT ![t] = "back"]
                   /\ on' = [on EXCEPT ![w] = c]
                /\ ev' = "" /\ UNCHANGED <<prog, dq, inb, pc, stolen, nst, open, thr, val, ex, all, bad, sub, got>>

\* H: an allocation made for the next operation fails (if it makes one): no child, no memory, bad_alloc
NoMem(w, t) == /\ Running(t) /\ Op(t).k \in ChildKinds \cup {"A"} /\ pc[t] > 1 /\ Pr.ops[t][pc[t] - 1].k = "H"
               /\ ev' = Lbl4("q", t - 1, pc[t] - 1, w, 61) /\ Step(t)
               /\ UNCHANGED <<prog, on, dq, inb, st, stolen, nst, open, thr, val, ex, all, bad, sub, got>>

\* back from a fork or call: which event may follow
\*  0: normal; "c" the child may still be running, "s"/"r" it has finished and left this value
\* nothing to report: while siblings may race only the child's own exception is certain to be seen
Clean(t, c) == IF nst[t] THEN ex[c] = 0 ELSE thr[t] = {}
BackPlain(w, t) == /\ st[t] = "run" /\ ph[t] = "back"
                   /\ LET k == Op(t).k
                          c == Op(t).a + 1
                      IN /\ \/ k \in {"F", "T"} /\ ev' = Lbl3("c", t - 1, pc[t] - 1, w)
                            \/ k \in {"S", "O"} /\ stolen[t] /\ ev' = Lbl3("c", t - 1, pc[t] - 1, w)
                            \/ k \in {"S", "O"} /\ ~stolen[t] /\ Clean(t, c) /\ ev' = Lbl4("s", t - 1, pc[t] - 1, w, Slot(c))
                            \/ k \in {"C", "U"} /\ ev' = Lbl4("r", t - 1, pc[t] - 1, w, Slot(c))
                            \/ k = "Q" /\ ex[c] = 0 /\ ev' = Lbl4("r", t - 1, pc[t] - 1, w, Slot(c))
                            \/ k \in {"E", "G"} /\ Clean(t, c) /\ ev' = Lbl4("r", t - 1, pc[t] - 1, w, Slot(c))
                   /\ Step(t)
                   /\ UNCHANGED <<prog, on, dq, inb, st, stolen, nst, open, thr, val, ex, all, bad, sub, got>>
BackThrow(w, t) == /\ st[t] = "run" /\ ph[t] = "back"
                   /\ LET k == Op(t).k
                          c == Op(t).a + 1
                          \* an exception that is known, or that a sibling may just be leaving
                          some == thr[t] # {} \/ \E s \in open[t] : st[s] = "ended" /\ ex[s] # 0 /\ Kind(s) \notin Stashing
                      IN \/ k = "Q" /\ ex[c] # 0 /\ ev' = Lbl4("q", t - 1, pc[t] - 1, w, ex[c]) /\ UNCHANGED thr
                         \* the real exception, which is then not delivered again
                         \/ /\ \/ k \in {"S", "O"} /\ ~stolen[t]
                               \/ k \in {"E", "G"}
                            /\ ~nst[t]
                            /\ \E x \in thr[t] : ev' = Lbl4("q", t - 1, pc[t] - 1, w, x)
                            /\ thr' = [thr EXCEPT ![t] = {}]
                         \* a substitute; the exception itself is delivered by the join
                         \/ /\ \/ k = "S" /\ ~stolen[t]
                               \/ k = "E"
                            /\ nst[t] /\ some
                            /\ ev' = Lbl4("q", t - 1, pc[t] - 1, w, 0) /\ UNCHANGED thr
                   /\ Step(t)
                   /\ UNCHANGED <<prog, on, dq, inb, st, stolen, nst, open, val, ex, all, bad, sub, got>>

\* join: wait for the children, then deliver
Passed(t) == st' = [st EXCEPT ![t] = "run"] /\ ph' = [ph EXCEPT ![t] = "joined"] /\ nst' = [nst EXCEPT ![t] = FALSE]
JoinTry(w, t) == /\ Running(t) /\ Op(t).k \in {"J", "K"}
                 /\ IF open[t] = {} THEN Passed(t) /\ UNCHANGED on
                    ELSE st' = [st EXCEPT ![t] = "wait"] /\ on' = [on EXCEPT ![w] = 0] /\ UNCHANGED <<ph, nst>>
                 /\ ev' = "" /\ UNCHANGED <<prog, dq, inb, pc, stolen, open, thr, val, ex, all, bad, sub, got>>
Joined(w, t) == /\ st[t] = "run" /\ ph[t] = "joined"
                /\ \/ /\ thr[t] = {} /\ ev' = Lbl4("j", t - 1, pc[t] - 1, w, Sum(t)) /\ Step(t)
                      /\ UNCHANGED <<thr, ex>>
                   \/ \E x \in thr[t] :
                      /\ ev' = Lbl5("z", t - 1, pc[t] - 1, w, x, Sum(t)) /\ thr' = [thr EXCEPT ![t] = {}]
                      /\ IF Op(t).k = "K" THEN Step(t) /\ UNCHANGED ex
                         ELSE \* propagates: the task ends
                              /\ ph' = [ph EXCEPT ![t] = "op"] /\ pc' = [pc EXCEPT ![t] = Len(Pr.ops[t]) + 1]
                              /\ ex' = [ex EXCEPT ![t] = x]
                /\ UNCHANGED <<prog, on, dq, inb, st, stolen, nst, open, val, all, bad, sub, got>>

\* explicit scheduling
Move(w, t) == /\ Running(t) /\ Op(t).k = "R"
              /\ ph' = [ph EXCEPT ![t] = "moved"]
              /\ IF Op(t).a = w THEN UNCHANGED <<on, inb, st>>
                 ELSE /\ on' = [on EXCEPT ![w] = 0] /\ st' = [st EXCEPT ![t] = "inq"]
                      /\ inb' = [inb EXCEPT ![Op(t).a] = Append(@, t)]
              /\ ev' = "" /\ UNCHANGED <<prog, dq, pc, stolen, nst, open, thr, val, ex, all, bad, sub, got>>
Moved(w, t) == /\ st[t] = "run" /\ ph[t] = "moved" /\ ev' = Lbl3("n", t - 1, pc[t] - 1, w) /\ Step(t)
               /\ UNCHANGED <<prog, on, dq, inb, st, stolen, nst, open, thr, val, ex, all, bad, sub, got>>

\* local operations
Raised(f) == \E t \in Tasks : \E i \in 1..(pc[t] - 1) : i <= Len(Pr.ops[t]) /\ Pr.ops[t][i].k = "V" /\ Pr.ops[t][i].a = f
Local(w, t) == /\ Running(t)
               /\ \/ /\ Op(t).k \in {"Y", "L", "M", "H"} /\ ev' = "" /\ Step(t) /\ UNCHANGED <<thr, ex, all, bad>>
                  \* V raises a flag, P waits for it (keeping its worker busy)
                  \/ /\ Op(t).k = "V" /\ ev' = Lbl3("v", t - 1, pc[t] - 1, w) /\ Step(t) /\ UNCHANGED <<thr, ex, all, bad>>
                  \/ /\ Op(t).k = "P" /\ Raised(Op(t).a) /\ ev' = Lbl3("p", t - 1, pc[t] - 1, w) /\ Step(t) /\ UNCHANGED <<thr, ex, all, bad>>
                  \/ /\ Op(t).k = "W" /\ ev' = "" /\ bad' = [bad EXCEPT ![t] = Op(t).a + 1] /\ Step(t) /\ UNCHANGED <<thr, ex, all>>
                  \/ /\ Op(t).k = "A" /\ (bad[t] = 0 \/ bad[t] > Op(t).a)
                     /\ all' = [all EXCEPT ![t] = @ + 1] /\ ev' = Lbl4("a", t - 1, pc[t] - 1, w, Op(t).a)
                     /\ Step(t) /\ UNCHANGED <<thr, ex, bad>>
                  \/ /\ Op(t).k = "A" /\ bad[t] # 0 /\ bad[t] <= Op(t).a /\ bad' = [bad EXCEPT ![t] = 0]
                     /\ ev' = Lbl4("q", t - 1, pc[t] - 1, w, 60) /\ Step(t) /\ UNCHANGED <<thr, ex, all>>
                  \/ Op(t).k = "B" /\ ev' = Lbl4("q", t - 1, pc[t] - 1, w, 61) /\ Step(t) /\ UNCHANGED <<thr, ex, all, bad>>
                  \/ /\ Op(t).k = "a" /\ all[t] > 0 /\ all' = [all EXCEPT ![t] = @ - 1]
                     /\ ev' = Lbl3("l", t - 1, pc[t] - 1, w) /\ Step(t) /\ UNCHANGED <<thr, ex, bad>>
                  \/ /\ Op(t).k = "Z" /\ thr' = [thr EXCEPT ![t] = @ \cup {Op(t).a}] /\ ev' = "" /\ Step(t)
                     /\ UNCHANGED <<ex, all, bad>>
                  \/ /\ Op(t).k = "X" /\ ex' = [ex EXCEPT ![t] = Op(t).a] /\ pc' = [pc EXCEPT ![t] = Len(Pr.ops[t]) + 1]
                     /\ ev' = "" /\ UNCHANGED <<ph, thr, all, bad>>
               /\ UNCHANGED <<prog, on, dq, inb, st, stolen, nst, open, val, sub, got>>

\* the body ends (its locals are destroyed), then the task finishes
End(w, t) == /\ Running(t) /\ Op(t).k = "end"
             /\ st' = [st EXCEPT ![t] = "ended"] /\ all' = [all EXCEPT ![t] = 0]
             /\ val' = [val EXCEPT ![t] = IF ex[t] = 0 THEN Sum(t) + t ELSE 0]
             /\ ev' = Lbl2(IF ex[t] = 0 THEN "e" ELSE "x", t - 1, w)
             /\ UNCHANGED <<prog, on, dq, inb, pc, ph, stolen, nst, open, thr, ex, bad, sub, got>>

Fin(w, t) ==
  LET p == Parent(t)
      k == Kind(t)
      thr2 == IF p # 0 /\ ex[t] # 0 /\ k \notin Stashing THEN [thr EXCEPT ![p] = @ \cup {ex[t]}] ELSE thr
  IN /\ st[t] = "ended" /\ ev' = "" /\ thr' = thr2
     /\ CASE p = 0 -> \* a root: its future becomes ready
               /\ st' = [st EXCEPT ![t] = "fin"] /\ on' = [on EXCEPT ![w] = 0] /\ UNCHANGED <<dq, ph, nst, open>>
          [] p # 0 /\ k \in CallKinds ->
               /\ st' = [st EXCEPT ![t] = "fin", ![p] = "run"] /\ on' = [on EXCEPT ![w] = p] /\ UNCHANGED <<dq, ph, nst, open>>
          [] p # 0 /\ k \in ForkKinds /\ dq[w] # <<>> -> \* the newest continuation of the queue is the parent's
               LET q == dq[w][Len(dq[w])] IN
               /\ st' = [st EXCEPT ![t] = "fin", ![q] = "run"] /\ on' = [on EXCEPT ![w] = q]
               /\ dq' = [dq EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
               /\ open' = [open EXCEPT ![p] = @ \ {t}] /\ UNCHANGED <<ph, nst>>
          [] p # 0 /\ k \in ForkKinds /\ dq[w] = <<>> -> \* the parent's continuation was stolen
               /\ open' = [open EXCEPT ![p] = @ \ {t}] /\ UNCHANGED dq
               /\ IF st[p] = "wait" /\ open[p] = {t}
                  THEN /\ st' = [st EXCEPT ![t] = "fin", ![p] = "run"] /\ ph' = [ph EXCEPT ![p] = "joined"]
                       /\ nst' = [nst EXCEPT ![p] = FALSE] /\ on' = [on EXCEPT ![w] = p]
                  ELSE st' = [st EXCEPT ![t] = "fin"] /\ on' = [on EXCEPT ![w] = 0] /\ UNCHANGED <<ph, nst>>
     /\ UNCHANGED <<prog, inb, pc, stolen, val, ex, all, bad, sub, got>>

Next == \/ Submit \/ Deliver \/ Rest \/ Quit
        \/ \E w \in W : \/ Take(w) \/ SelfSteal(w) \/ \E v \in W : Steal(w, v)
                        \/ on[w] # 0 /\ LET t == on[w] IN
                             \/ Begin(w, t) \/ NoMem(w, t) \/ ForkOp(w, t) \/ CallOp(w, t) \/ BackPlain(w, t) \/ BackThrow(w, t)
                             \/ JoinTry(w, t) \/ Joined(w, t) \/ Move(w, t) \/ Moved(w, t) \/ Local(w, t)
                             \/ End(w, t) \/ Fin(w, t)
Spec == Init /\ [][Next]_<<vars, ev>>
Fair == Spec /\ WF_<<vars, ev>>(Next) 

---------------------------------------------------------------------------
(* Design properties checked by TLC *)
Live(t) == st[t] \notin {"no", "fin"}
\* a task is executed by one worker, queued in one place, or suspended
RECURSIVE Lens(_)
Lens(w) == IF w = 0 THEN 0 ELSE Len(dq[w]) + Len(inb[w]) + (IF on[w] = 0 THEN 0 ELSE 1) + Lens(w - 1)
Placed == UNION {Seq2Set(dq[w]) \cup Seq2Set(inb[w]) \cup ({on[w]} \ {0}) : w \in W}
OnePlace == /\ Placed = {t \in Tasks : st[t] \in {"run", "ready", "cont", "inq", "ended"}}
            /\ Cardinality(Placed) = Lens(Pr.w)
\* the continuation a finishing fork finds at the end of its worker's queue is its parent's
PopsParent == \A w \in W : on[w] # 0 /\ st[on[w]] = "ended" /\ Kind(on[w]) \in ForkKinds /\ dq[w] # <<>>
                           => dq[w][Len(dq[w])] = Parent(on[w])
\* C01: past a join (and at its end) a task has no unfinished children
JoinWaits == \A t \in Tasks : (st[t] = "fin" \/ (st[t] = "run" /\ ph[t] = "joined")) => open[t] = {}
Descend == \A t \in Tasks : st[t] = "fin" => \A i \in 1..Len(Pr.ops[t]) :
              Pr.ops[t][i].k \in ChildKinds => st[Pr.ops[t][i].a + 1] \in {"fin", "no"}
\* C23: every live task without live children is executed or queued
BusyLeaves == \A t \in Tasks :
  st[t] \in {"callw", "wait"} => \E c \in Tasks : Parent(c) = t /\ Live(c)
\* C23: no more live tasks than workers times the depth of the task tree, submitted tasks that nobody has started aside
\* (programs without explicit scheduling)
RECURSIVE Depth(_)
Depth(t) == IF t = 0 THEN 0 ELSE 1 + Depth(Parent(t))
MaxDepth == CHOOSE d \in 0..Len(Pr.ops) : (\A t \in Tasks : Depth(t) <= d) /\ \E t \in Tasks : Depth(t) = d
LiveBound == (\A t \in Tasks : \A i \in 1..Len(Pr.ops[t]) : Pr.ops[t][i].k # "R")
             => Cardinality({t \in Tasks : Live(t) /\ st[t] # "inq"}) <= Pr.w * MaxDepth
\* C03: nothing can be stuck: unless all is done somebody has a step
Alive == got > Len(Pr.roots) \/ ENABLED Next
\* an exception is never forgotten by a finished task
NoLoss == \A t \in Tasks : st[t] = "fin" => thr[t] = {}
===============================================================================
