------------------------------- MODULE Stack -------------------------------
(* Segmented stacks: property C08 (and the memory bound of C23).                                       *)
(* A stack holds blocks that are allocated and released in LIFO order; its content can be detached       *)
(* (release), adopted by another empty stack, moved and swapped.  With Design = TRUE the module also      *)
(* describes how the library lays blocks out in a chain of stacklets of growing capacity with at most one  *)
(* cached ahead of the top, and TLC checks that the memory held is bounded by the blocks' size (Bounded);   *)
(* with FALSE only what a user can rely on is left and the recorded behaviour of the real stacks is judged:  *)
(* results, contents (the harness), and the memory bound.                                                *)
(* Units: 16 bytes (the alignment of new).                                                               *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Progs, NStacks, MaxOps, MaxBlocks, Design

VARIABLES prog, st, det, arm, n, h, ev
vars == <<prog, st, det, arm, n, h>>

\* a stack: <<>> when it does not exist, else <<content>>; content: blocks (their sizes, oldest first), and in the design
\* model the chain of stacklets [cap, k (blocks in it), used] and the capacity of the cached one (0: none)
S == 1..NStacks
Sizes == Progs[prog].sizes
Page == 256
Head0 == 3       \* a stacklet's header
Meta == 3        \* malloc's own
Round(s) == ((s + Meta + Page - 1) \div Page) * Page - Meta
NewCap(s) == Round(s + Head0) - Head0
Let(cap) == [cap |-> cap, k |-> 0, used |-> 0]
Empty == [b |-> <<>>, c |-> IF Design THEN <<Let(NewCap(1))>> ELSE <<>>, cache |-> 0]

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
RECURSIVE Caps(_)
Caps(c) == IF c = <<>> THEN 0 ELSE Head(c).cap + Head0 + Meta + Caps(Tail(c))
Held(x) == Caps(x.c) + (IF x.cache = 0 THEN 0 ELSE x.cache + Head0 + Meta)
Max(a, b) == IF a > b THEN a ELSE b

AllocD(x, s) ==
  LET top == x.c[Len(x.c)]
      put(c, cache) == [x EXCEPT !.c = [c EXCEPT ![Len(c)].k = @ + 1, ![Len(c)].used = @ + s], !.cache = cache]
  IN IF top.cap - top.used >= s THEN put(x.c, x.cache)
     ELSE IF x.cache >= s /\ x.cache > 0 THEN put(Append(x.c, Let(x.cache)), 0)
     ELSE put(Append(x.c, Let(NewCap(Max(2 * top.cap, s)))), 0)
FreeD(x, s) ==
  LET m == Len(x.c)
      c1 == [x.c EXCEPT ![m].k = @ - 1, ![m].used = @ - s]
      guard(c, cache) == [x EXCEPT !.c = c, !.cache = IF cache > 8 * c[Len(c)].cap THEN 0 ELSE cache]
  IN IF c1[m].used # 0 THEN [x EXCEPT !.c = c1]
     ELSE IF m = 1 THEN guard(c1, x.cache)
     ELSE guard(SubSeq(c1, 1, m - 1), c1[m].cap)
Alloc1(x, s) == LET y == IF Design THEN AllocD(x, s) ELSE x IN [y EXCEPT !.b = Append(@, s)]
Free1(x) == LET s == x.b[Len(x.b)]
                y == IF Design THEN FreeD(x, s) ELSE x IN [y EXCEPT !.b = SubSeq(@, 1, Len(@) - 1)]

RECURSIVE Over(_, _)
Over(f, i) == IF i = 0 THEN 0 ELSE (IF st[i] = <<>> THEN 0 ELSE f[1 + (i - 1)]) + Over(f, i - 1)
RECURSIVE Dets(_)
Dets(q) == IF q = <<>> THEN 0 ELSE Sum(Head(q).b) + Dets(Tail(q))
RECURSIVE DetHeld(_)
DetHeld(q) == IF q = <<>> THEN 0 ELSE Held(Head(q)) + DetHeld(Tail(q))
RECURSIVE Count(_)
Count(i) == IF i = 0 THEN 0 ELSE (IF st[i] = <<>> THEN 0 ELSE Len(st[i][1].b)) + Count(i - 1)
RECURSIVE DetCount(_)
DetCount(q) == IF q = <<>> THEN 0 ELSE Len(Head(q).b) + DetCount(Tail(q))
Chains == Len(det) + Over([i \in S |-> 1], NStacks)
Live == Dets(det) + Over([i \in S |-> IF st[i] = <<>> THEN 0 ELSE Sum(st[i][1].b)], NStacks)
HeldAll == DetHeld(det) + Over([i \in S |-> IF st[i] = <<>> THEN 0 ELSE Held(st[i][1])], NStacks)
\* a constant factor of what is live, and a constant for every chain
Bound == 80 * Live + 80 * Page * Chains

B(b) == IF b THEN 1 ELSE 0
L1(k, a) == k \o " " \o ToString(a)
L2(k, a, b) == L1(k, a) \o " " \o ToString(b)
L3(k, a, b, c) == L2(k, a, b) \o " " \o ToString(c)

Init == prog \in 1..Len(Progs) /\ st = [s \in S |-> <<>>] /\ det = <<>> /\ arm = FALSE /\ n = 0 /\ h = FALSE /\ ev = ""

\* every operation is followed by a report of the memory held; an allocation failure may have been armed before it
Op == ~h /\ n < MaxOps /\ n' = (IF Design THEN n + 1 ELSE n) /\ h' = TRUE /\ arm' = FALSE
Set(s, x) == st' = [st EXCEPT ![s] = <<x>>]
Fails(e) == arm /\ ev' = e /\ UNCHANGED <<st, det>>

Arm == ~h /\ ~arm /\ n < MaxOps /\ arm' = TRUE /\ ev' = "F" /\ UNCHANGED <<prog, st, det, n, h>>
New(s) == /\ st[s] = <<>> /\ Op
          /\ \/ Set(s, Empty) /\ ev' = L2("n", s, 1) /\ UNCHANGED det
             \/ Fails(L2("n", s, 0))
Drop(s) == st[s] # <<>> /\ st[s][1].b = <<>> /\ Op /\ st' = [st EXCEPT ![s] = <<>>] /\ ev' = L1("x", s) /\ UNCHANGED det
Alloc(s, z) == /\ st[s] # <<>> /\ Op /\ Count(NStacks) + DetCount(det) < MaxBlocks
               /\ \/ Set(s, Alloc1(st[s][1], z)) /\ ev' = L3("a", s, z, 1) /\ UNCHANGED det
                  \/ Fails(L3("a", s, z, 0))
Free(s) == /\ st[s] # <<>> /\ st[s][1].b # <<>> /\ Op
           /\ Set(s, Free1(st[s][1])) /\ ev' = L2("d", s, st[s][1].b[Len(st[s][1].b)]) /\ UNCHANGED det
Release(s) == /\ st[s] # <<>> /\ Len(det) < 2 /\ Op
              /\ \/ det' = Append(det, st[s][1]) /\ Set(s, Empty) /\ ev' = L2("r", s, 1)
                 \/ Fails(L2("r", s, 0))
\* adopt: an empty stack takes the content of a detached one (the oldest)
Adopt(s) == /\ st[s] # <<>> /\ st[s][1].b = <<>> /\ det # <<>> /\ Op
            /\ Set(s, Head(det)) /\ det' = Tail(det) /\ ev' = L2("t", s, Len(Head(det).b))
Move(a, b) == /\ a # b /\ st[a] # <<>> /\ st[b] = <<>> /\ Op
              /\ \/ st' = [st EXCEPT ![b] = st[a], ![a] = <<Empty>>] /\ ev' = L3("m", a, b, 1) /\ UNCHANGED det
                 \/ Fails(L3("m", a, b, 0))
Swap(a, b) == /\ a < b /\ st[a] # <<>> /\ st[b] # <<>> /\ Op
              /\ st' = [st EXCEPT ![a] = st[b], ![b] = st[a]] /\ ev' = L2("w", a, b) /\ UNCHANGED det
Query(s) == /\ st[s] # <<>> /\ Op /\ ev' = L2("e", s, B(st[s][1].b = <<>>)) /\ UNCHANGED <<st, det>>
\* the memory held, as the least k with held <= 2^k pages
Report(k) == h /\ h' = FALSE /\ (IF k = 0 THEN TRUE ELSE 2^(k - 1) * Page < Bound) /\ ev' = L1("h", k) /\ UNCHANGED <<prog, st, det, arm, n>>
End == ~h /\ det = <<>> /\ (\A s \in S : st[s] = <<>>) /\ h' = TRUE /\ n' = MaxOps + 1 /\ ev' = "end" /\ UNCHANGED <<prog, st, det, arm>>

Next == \/ Arm \/ End \/ \E k \in 0..20 : n <= MaxOps /\ Report(k)
        \/ UNCHANGED prog /\ \E s \in S : New(s) \/ Drop(s) \/ Free(s) \/ Release(s) \/ Adopt(s) \/ Query(s)
                       \/ (\E i \in 1..Len(Sizes) : Alloc(s, Sizes[i])) \/ (\E b \in S : Move(s, b) \/ Swap(s, b))
Spec == Init /\ [][Next]_<<vars, ev>>

\* ---- design properties
Chain(x) == /\ x.c # <<>> /\ \A i \in 1..Len(x.c) : x.c[i].used <= x.c[i].cap /\ (i > 1 => x.c[i].used > 0)
            /\ x.cache <= 8 * x.c[Len(x.c)].cap
ChainOk == Design => /\ \A s \in S : st[s] # <<>> => Chain(st[s][1])
                     /\ \A i \in 1..Len(det) : Chain(det[i])
Bounded == Design => HeldAll <= Bound
=============================================================================
