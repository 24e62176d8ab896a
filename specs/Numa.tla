-------------------------------- MODULE Numa --------------------------------
(* Distribution of workers over a machine and stealing between them: property C16.                      *)
(* A machine is a tree whose leaves are processing units (PUs); some objects have memory (domains).      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* Progs[k]: pus: sequence of PU numbers; path: for each PU (by index) its ancestors' ids, root first, itself last;
\* dom: for each PU the object with its memory; packs: for each package (in order) the ids of its PUs' indices (a
\* sequence) and its cores; n: number of workers; seq: strategy; steal: do they steal
CONSTANTS Progs, MaxTasks, MaxSteals

VARIABLES prog, st, at, dom, has, steals, ev
vars == <<prog, st, at, dom, has, steals>>

M == Progs[prog]
N == M.n
W == 1..N
U == 1..Len(M.pus)

\* ---- the machine ----
Level == Len(M.path[1])
Common(p, q) == Cardinality({l \in 1..Level : M.path[p][l] = M.path[q][l]}) \* paths agree on a prefix
Dist(p, q) == Level - Common(p, q)
Objects == {M.path[p][l] : p \in U, l \in 1..Level}
Pus(o) == {p \in U : \E l \in 1..Level : M.path[p][l] = o}
Kids(o) == {M.path[p][l + 1] : <<p, l>> \in {x \in U \X (1..Level - 1) : M.path[x[1]][x[2]] = o}}
SumF(S, f(_)) == LET RECURSIVE go(_)
                     go(T) == IF T = {} THEN 0 ELSE LET x == CHOOSE y \in T : TRUE IN f(x) + go(T \ {x})
                 IN go(S)

\* ---- where the workers may be put ----
\* the sequential strategy takes as many packages as have a core for everyone (no packages: the machine)
Cores(k) == SumF(1..k, LAMBDA i : M.packs[i].cores)
NPacks == IF \E k \in 1..Len(M.packs) : Cores(k) >= N
          THEN CHOOSE k \in 1..Len(M.packs) : Cores(k) >= N /\ \A j \in 1..k - 1 : Cores(j) < N
          ELSE Len(M.packs)
Room == IF M.seq /\ M.packs # <<>> THEN UNION {{M.packs[k].pus[i] : i \in 1..Len(M.packs[k].pus)} : k \in 1..NPacks} ELSE U
\* c of n workers in a part with w of v PUs: proportional up to rounding
Fair(c, n, w, v) == c * v - w * n < v /\ w * n - c * v < v
Cnt(S) == Cardinality({i \in 1..Len(at) : at[i] \in S})
Even == /\ \A i \in W : at[i] \in Room
        /\ N <= Cardinality(Room) => \A i, j \in W : i # j => at[i] # at[j]
        /\ (M.seq /\ M.packs # <<>>) =>
             \A k \in 1..NPacks : LET S == {M.packs[k].pus[i] : i \in 1..Len(M.packs[k].pus)}
                                  IN Fair(Cnt(S), N, Cardinality(S), Cardinality(Room))
        /\ \A o \in Objects : (Pus(o) \subseteq Room /\ Cnt(Pus(o)) >= 2) =>
             \A k \in Kids(o) : Fair(Cnt(Pus(k)), Cnt(Pus(o)), Cardinality(Pus(k)), Cardinality(Pus(o)))
\* workers have the same domain number iff they have the same memory; numbers are 0, 1, ...
Dense == /\ \A i, j \in W : (dom[i] = dom[j]) <=> (M.dom[at[i]] = M.dom[at[j]])
         /\ {dom[i] : i \in W} = 0..Cardinality({dom[i] : i \in W}) - 1

\* ---- the neighbours of a worker ----
WD(i, j) == Dist(at[i], at[j])
Others(i) == W \ {i}
Dists(i) == {WD(i, j) : j \in Others(i)}
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Asc(S \ {m})
Groups(i) == LET D == Asc(Dists(i)) IN [k \in 1..Len(D) |-> {j \in Others(i) : WD(i, j) = D[k]}]
Closest(i) == IF Others(i) = {} THEN {} ELSE Groups(i)[1]
RECURSIVE Str(_)
Str(S) == IF S = <<>> THEN "" ELSE " " \o ToString(Head(S)) \o Str(Tail(S))
RECURSIVE Lists(_)
Lists(G) == IF G = <<>> THEN "" ELSE " /" \o Str(Asc(Head(G))) \o Lists(Tail(G))
RECURSIVE Rep(_, _)
Rep(s, k) == IF k = 0 THEN "" ELSE s \o Rep(s, k - 1)

\* ---- behaviour ----
Init == /\ prog \in 1..Len(Progs) /\ st = <<"place">> /\ at = <<>> /\ dom = <<>> /\ has = [i \in 1..N |-> 0] /\ steals = 0 /\ ev = ""
Place(p, d) == /\ st = <<"place">> /\ Len(at) < N
               /\ at' = Append(at, p) /\ dom' = Append(dom, d)
               /\ ev' = "w " \o ToString(Len(at) + 1) \o " " \o ToString(M.pus[p]) \o " " \o ToString(d)
               /\ UNCHANGED <<prog, st, has, steals>>
Placed == /\ st = <<"place">> /\ N > 0 /\ Len(at) = N /\ Even /\ Dense /\ st' = <<"nodes", 1>> /\ ev' = "placed"
          /\ UNCHANGED <<prog, at, dom, has, steals>>
None == st = <<"place">> /\ N = 0 /\ st' = <<"over">> /\ ev' = "x" /\ UNCHANGED <<prog, at, dom, has, steals>>
Node == /\ st[1] = "nodes"
        /\ LET i == st[2] IN /\ ev' = "n " \o ToString(i) \o " / " \o ToString(i) \o Lists(Groups(i))
                             /\ st' = IF i < N THEN <<"nodes", i + 1>> ELSE IF M.steal THEN <<"bind", 1>> ELSE <<"over">>
        /\ UNCHANGED <<prog, at, dom, has, steals>>
\* each thread stays on its PU
Bind == /\ st[1] = "bind"
        /\ LET i == st[2] IN /\ ev' = "b " \o ToString(i) \o " " \o ToString(M.pus[at[i]])
                             /\ st' = IF i < N THEN <<"bind", i + 1>> ELSE <<"run">>
        /\ UNCHANGED <<prog, at, dom, has, steals>>
Push(v) == /\ st[1] = "run" /\ has[v] < MaxTasks /\ has' = [has EXCEPT ![v] = @ + 1] /\ ev' = "k " \o ToString(v) /\ UNCHANGED <<prog, st, at, dom, steals>>
Take(v) == /\ st[1] = "run" /\ has[v] > 0 /\ has' = [has EXCEPT ![v] = @ - 1] /\ ev' = "o " \o ToString(v) /\ UNCHANGED <<prog, st, at, dom, steals>>
\* a thief that keeps trying gets a task of one of the closest workers, if they have any, and else of any other worker
CanSteal(t, v) == v \in Others(t) /\ has[v] > 0 /\ (v \in Closest(t) \/ \A u \in Closest(t) : has[u] = 0)
Steal(t, v) == /\ st[1] = "run" /\ steals < MaxSteals /\ CanSteal(t, v)
               /\ has' = [has EXCEPT ![v] = @ - 1] /\ ev' = "s " \o ToString(t) \o " " \o ToString(v)
               /\ steals' = (IF MaxSteals = 1 THEN 0 ELSE steals + 1) /\ UNCHANGED <<prog, st, at, dom>>
Nothing(t) == /\ st[1] = "run" /\ (\A v \in Others(t) : has[v] = 0) /\ ev' = "s " \o ToString(t) \o " 0"
              /\ UNCHANGED vars
\* when all have plenty except the closest, nearer groups are stolen from more often, and the members of a group equally
Often(t) == /\ st[1] = "run" /\ N > 1 /\ Len(Groups(t)) > 1 /\ ev' = "f " \o ToString(t) \o Rep(" -=", Len(Groups(t)) - 1)
            /\ UNCHANGED vars
End == st[1] \in {"over", "run"} /\ (\A i \in W : has[i] = 0) /\ st' = <<"end">> /\ ev' = "end" /\ UNCHANGED <<prog, at, dom, has, steals>>

Next == \/ \E p \in U, d \in 0..N - 1 : Place(p, d)
        \/ Placed \/ None \/ Node \/ Bind \/ End
        \/ \E t \in W : Push(t) \/ (N = 1 /\ Take(t)) \/ Nothing(t) \/ Often(t) \/ \E v \in W : Steal(t, v)
Spec == Init /\ [][Next]_<<vars, ev>>

\* ---- what follows, for every placement ----
Done == st[1] \notin {"place"} /\ N > 0
\* everybody else is in exactly one group; distances are symmetric
Partition == Done => \A i \in W : LET G == Groups(i) IN /\ UNION {G[k] : k \in DOMAIN G} = Others(i)
                                                        /\ \A a, b \in DOMAIN G : a # b => G[a] \cap G[b] = {}
                                                        /\ \A k \in DOMAIN G : G[k] # {}
Symmetric == Done => \A i, j \in W : WD(i, j) = WD(j, i) /\ (WD(i, j) = 0 <=> at[i] = at[j])
\* those of the same domain come before all others
DomainFirst == Done => \A i, j, k \in W : (i # j /\ dom[i] = dom[j] /\ dom[i] # dom[k]) => WD(i, j) < WD(i, k)
\* two workers that are closer to each other than to a third are as far from it
Ultrametric == Done => \A i, j, k \in W : WD(i, k) <= (IF WD(i, j) > WD(j, k) THEN WD(i, j) ELSE WD(j, k))
\* an even placement always exists, tasks of any worker can be stolen by any other
Reachable == st[1] = "run" => \A t \in W : \A v \in Others(t) : (has[v] > 0 /\ \A u \in W \ {v} : has[u] = 0) => CanSteal(t, v)
Possible == (st = <<"place">> /\ Len(at) = 0 /\ N > 0 /\ N <= 3) => \E a \in [1..N -> U] :
  LET c(S) == Cardinality({i \in 1..N : a[i] \in S}) IN
  /\ \A i \in W : a[i] \in Room
  /\ \A o \in Objects : (Pus(o) \subseteq Room /\ c(Pus(o)) >= 2) => \A k \in Kids(o) : Fair(c(Pus(k)), c(Pus(o)), Cardinality(Pus(k)), Cardinality(Pus(o)))
=============================================================================
