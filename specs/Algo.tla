-------------------------------- MODULE Algo --------------------------------
(* The parallel algorithms for_each, map, fold and scan: properties C17 - C20.                      *)
(* One application of one algorithm to n elements.  alg: E for_each, M map, F fold, S scan;         *)
(* n elements, chunk c, proj: a projection is used (its applications are observable).               *)
(* Values are symbolic: fold and scan combine intervals, element i is the interval <<i, i+1>>, the  *)
(* operation is only defined on adjacent intervals (associative, not commutative, no identity).     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Progs

VARIABLES prog, ph, st, known, fly, run, thrown, out, ev
vars == <<prog, ph, st, known, fly, run, thrown, out>>

A == Progs[prog].alg
N == Progs[prog].n
C == Progs[prog].c
Proj == Progs[prog].proj
El == 0..(N - 1)
EM == A \in {"E", "M"}
FS == A \in {"F", "S"}
L1(k, a) == k \o " " \o ToString(a)
L2(k, a, b) == L1(k, a) \o " " \o ToString(b)
L3(k, a, b, c) == L2(k, a, b) \o " " \o ToString(c)
L4(k, a, b, c, d) == L3(k, a, b, c) \o " " \o ToString(d)

Init == /\ prog \in 1..Len(Progs) /\ ph = "run" /\ st = [i \in El |-> "no"] /\ run = 0 /\ thrown = {} /\ out = 0 /\ ev = ""
        /\ known = IF FS /\ ~Proj THEN {<<i, i + 1>> : i \in El} ELSE {}
        /\ fly = {}

\* ---- projections ----
Project(i) == /\ ph = "run" /\ Proj
              /\ IF EM THEN st[i] = "no" /\ st' = [st EXCEPT ![i] = "proj"] /\ UNCHANGED known
                       ELSE /\ A = "F" => st[i] = "no"        \* fold projects once, scan may look again
                            /\ st' = [st EXCEPT ![i] = "proj"] /\ known' = known \cup {<<i, i + 1>>}
              /\ ev' = L1("p", i) /\ UNCHANGED <<prog, ph, fly, run, thrown, out>>
\* a projection (element i) or an application to element i throws
Throw(i) == /\ ph = "run"
            /\ st[i] = "run" \/ (Proj /\ (st[i] = "no" \/ A = "S"))
            /\ IF FS THEN UNCHANGED st ELSE st' = [st EXCEPT ![i] = "threw"]
            /\ thrown' = thrown \cup {i} /\ ev' = L1("x", i) /\ UNCHANGED <<prog, ph, known, fly, run, out>>

\* copying the function object throws
CopyThrows == /\ ph = "run" /\ Progs[prog].q /\ 200 \notin thrown
              /\ thrown' = thrown \cup {200} /\ ev' = L1("q", 200) /\ UNCHANGED <<prog, ph, st, known, fly, run, out>>

\* ---- for_each, map ----
Start(i) == /\ ph = "run" /\ EM /\ st[i] = (IF Proj THEN "proj" ELSE "no") /\ st' = [st EXCEPT ![i] = "run"]
            /\ ev' = L1("s", i) /\ UNCHANGED <<prog, ph, known, fly, run, thrown, out>>
Done(i) == /\ ph = "run" /\ st[i] = "run" /\ st' = [st EXCEPT ![i] = "done"]
           /\ ev' = L1("d", i) /\ UNCHANGED <<prog, ph, known, fly, run, thrown, out>>
\* the application to i sees that everything is done except for at most one chunk for each of the stuck applications
Stuck(i) == /\ ph = "run" /\ st[i] = "run" /\ Cardinality({j \in El : st[j] # "done"}) <= C * Cardinality({j \in El : st[j] = "run"})
            /\ ev' = L1("k", i) /\ UNCHANGED vars

\* ---- fold, scan ----
Merge(a, b, c) == /\ ph = "run" /\ FS /\ <<a, b>> \in known /\ <<b, c>> \in known
                  /\ IF A = "F" THEN known' = known \ {<<a, b>>, <<b, c>>} /\ fly' = fly \cup {<<a, b, c>>} ELSE UNCHANGED <<known, fly>>
                  /\ run < N      \* combinations in progress work on disjoint parts
                  /\ run' = run + 1 /\ ev' = L4("m", a, b, b, c) /\ UNCHANGED <<prog, ph, st, thrown, out>>
Merged(a, b, c) == /\ ph = "run" /\ FS /\ run > 0 /\ run' = run - 1
                   /\ A = "F" => <<a, b, c>> \in fly
                   /\ fly' = fly \ {<<a, b, c>>} /\ known' = known \cup {<<a, c>>}
                   /\ ev' = L3("M", a, b, c) /\ UNCHANGED <<prog, ph, st, thrown, out>>
MergeThrows(a, b, c) == /\ ph = "run" /\ FS /\ run > 0 /\ run' = run - 1
                        /\ A = "F" => <<a, b, c>> \in fly
                        /\ fly' = fly \ {<<a, b, c>>} /\ thrown' = thrown \cup {100 + b}
                        /\ ev' = L3("X", a, b, c) /\ UNCHANGED <<prog, ph, st, known, out>>

\* ---- return ----
Quiet == run = 0 /\ (\A i \in El : st[i] # "run")
         /\ EM => Cardinality({i \in El : st[i] = "proj"}) <= (IF 200 \in thrown THEN 1 ELSE 0) \* the function could not be copied
Ret == /\ ph = "run" /\ Quiet /\ thrown = {}
       /\ EM => \A i \in El : st[i] = "done"
       /\ ph' = "ret" /\ UNCHANGED <<prog, st, known, fly, run, thrown, out>>
       /\ ev' = IF A = "F" THEN (IF N = 0 THEN "none" ELSE L2("R", 0, N)) ELSE "ret"
       /\ A = "F" /\ N > 0 => known = {<<0, N>>}
Thr(k) == /\ ph = "run" /\ Quiet /\ k \in thrown /\ ph' = "thr" /\ ev' = L1("thr", k) /\ UNCHANGED <<prog, st, known, fly, run, thrown, out>>

\* ---- what is found in the input and output afterwards, element by element ----
ValueAt(i) == CASE A = "E" -> L2("o", i, 1)                              \* applications
                [] A = "M" -> L3("o", i, 3 * (10 * i + (IF Proj THEN 100 ELSE 0)) + 1, 1) \* value, number of writes
                [] A = "S" -> L3("o", i, 0, i + 1)
                [] OTHER -> ""
Nothing(i) == CASE A = "E" -> L2("o", i, 0)
                [] A = "M" -> L3("o", i, 10 * i, 0)     \* as before the call
                [] OTHER -> ""
Out == /\ ph \in {"ret", "thr"} /\ out < N /\ A # "F" /\ ~(A = "S" /\ ph = "thr")
       /\ ev' = (IF ph = "ret" \/ st[out] = "done" THEN ValueAt(out) ELSE Nothing(out))
       /\ out' = out + 1 /\ UNCHANGED <<prog, ph, st, known, fly, run, thrown>>
End == /\ ph \in {"ret", "thr"} /\ (out = N \/ A = "F" \/ (A = "S" /\ ph = "thr"))
       /\ ph' = "end" /\ ev' = "end" /\ UNCHANGED <<prog, st, known, fly, run, thrown, out>>

Next == \/ \E i \in El : Project(i) \/ Throw(i) \/ Start(i) \/ Done(i) \/ Stuck(i)
        \/ \E p, q \in known : p[2] = q[1] /\ Merge(p[1], p[2], q[2])
        \/ (A = "F" /\ \E f \in fly : Merged(f[1], f[2], f[3]) \/ MergeThrows(f[1], f[2], f[3]))
        \/ (A = "S" /\ \E p, q \in known : p[2] = q[1] /\ (Merged(p[1], p[2], q[2]) \/ MergeThrows(p[1], p[2], q[2])))
        \/ CopyThrows \/ Ret \/ (\E k \in thrown : Thr(k)) \/ Out \/ End
Spec == Init /\ [][Next]_<<vars, ev>>

\* fold: available, combining and lost intervals partition the sequence, so that what is returned can only be the whole
Partition == A = "F" /\ thrown = {} /\ ~Proj =>
   \A i \in El : Cardinality({s \in known : s[1] <= i /\ i < s[2]}) + Cardinality({f \in fly : f[1] <= i /\ i < f[3]}) = 1
Intervals == \A s \in known : 0 <= s[1] /\ s[1] < s[2] /\ s[2] <= N
AtMostOnce == EM => \A i \in El : st[i] \in {"no", "proj", "run", "done", "threw"}
ReturnsComplete == ph = "ret" /\ EM => \A i \in El : st[i] = "done"
=============================================================================
