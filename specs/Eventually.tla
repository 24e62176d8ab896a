----------------------------- MODULE Eventually -----------------------------
(* eventually<T> and try_eventually<T>: property C21.                                               *)
(* prog selects the kind of object: val (a tracked value type), ref, rref or void; try: it can also  *)
(* hold an exception.  Every construction, copy, move and destruction of a tracked value and every    *)
(* destruction of an exception is observed.                                                          *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Progs, MaxOps, Ids

VARIABLES prog, st, id, op, n, life, ev
vars == <<prog, st, id, op, n, life>>

K == Progs[prog].kind
Try == Progs[prog].try
L1(k, a) == k \o " " \o ToString(a)
L2(k, a, b) == L1(k, a) \o " " \o ToString(b)
B(b) == IF b THEN 1 ELSE 0

\* st: "none" before construction, "empty", "value", "exc", "gone" (destroyed); op: the call in progress
\* life: number of live contained objects (values or exceptions)
Init == prog \in 1..Len(Progs) /\ st = "none" /\ id = 0 /\ op = <<"">> /\ n = 0 /\ life = 0 /\ ev = ""

Idle == op = <<"">>
Call(o, e) == Idle /\ n < MaxOps /\ op' = o /\ n' = n + 1 /\ ev' = e
Create == /\ st = "none" /\ Idle /\ n < MaxOps /\ st' = "empty" /\ ev' = "new" /\ UNCHANGED <<prog, id, op, n, life>>
Query == /\ st \in {"empty", "value", "exc"} /\ Idle /\ n < MaxOps /\ n' = n + 1
         /\ ev' = L2("q", B(st = "empty"), B(st = "value")) \o " " \o ToString(B(st = "exc")) /\ UNCHANGED <<prog, st, id, op, life>>

\* ---- assignment: from something convertible (c), a copy (k) or a move (m) of a value, or one whose construction throws (x)
AssignVal(i, how) == /\ st = "empty" /\ K = "val" /\ Call(<<"assign", i, how>>, L1("a" \o how, i)) /\ UNCHANGED <<prog, st, id, life>>
Constructs == /\ op[1] = "assign" /\ op[3] # "x" /\ op' = <<"assigned">> /\ st' = "value" /\ id' = op[2] /\ life' = life + 1
              /\ ev' = L1(CASE op[3] = "c" -> "C" [] op[3] = "k" -> "K" [] OTHER -> "M", op[2]) /\ UNCHANGED <<prog, n>>
Assigned == op[1] = "assigned" /\ op' = <<"">> /\ ev' = "A" /\ UNCHANGED <<prog, st, id, n, life>>
AssignThrows == op[1] = "assign" /\ op[3] = "x" /\ op' = <<"">> /\ ev' = L1("X", op[2]) /\ UNCHANGED <<prog, st, id, n, life>>
AssignRef(i) == /\ st = "empty" /\ K \in {"ref", "rref"} /\ Idle /\ n < MaxOps /\ n' = n + 1 /\ st' = "value" /\ id' = i
                /\ ev' = L1("b", i) /\ UNCHANGED <<prog, op, life>>

\* ---- access; reading by moving out constructs one new value elsewhere and leaves the moved-from object in place
Read == /\ st = "value" /\ Idle /\ n < MaxOps /\ n' = n + 1 /\ ev' = L1("r", id) /\ UNCHANGED <<prog, st, id, op, life>>
Write(i) == /\ st = "value" /\ Idle /\ n < MaxOps /\ n' = n + 1 /\ id' = (IF K = "val" THEN i ELSE id) /\ K = "val"
            /\ ev' = L1("w", i) /\ UNCHANGED <<prog, st, op, life>>
MoveOut == /\ st = "value" /\ K = "val" /\ Call(<<"move">>, "mo") /\ UNCHANGED <<prog, st, id, life>>
Moves == op = <<"move">> /\ op' = <<"moved", id>> /\ id' = 0 /\ ev' = L1("M", id) /\ UNCHANGED <<prog, st, n, life>>
Moved == op[1] = "moved" /\ op' = <<"">> /\ ev' = L1("MO", op[2]) /\ UNCHANGED <<prog, st, id, n, life>>

\* ---- exceptions
Stash(i) == /\ Try /\ st = "empty" /\ Idle /\ n < MaxOps /\ n' = n + 1 /\ st' = "exc" /\ id' = i /\ life' = life + 1
            /\ ev' = L1("s", i) /\ UNCHANGED <<prog, op>>
Rethrow == /\ st = "exc" /\ Idle /\ n < MaxOps /\ n' = n + 1 /\ ev' = L1("t", id) /\ UNCHANGED <<prog, st, id, op, life>>

\* ---- destruction destroys what is contained, once
Destroy == /\ st \in {"empty", "value", "exc"} /\ Idle
           /\ ev' = "del" /\ st' = "gone"
           /\ op' = (CASE st = "value" /\ K = "val" -> <<"dtor", "D">> [] st = "exc" -> <<"dtor", "E">> [] OTHER -> <<"deleted">>)
           /\ UNCHANGED <<prog, id, n, life>>
Dtor == op[1] = "dtor" /\ life' = life - 1 /\ op' = <<"deleted">> /\ ev' = L1(op[2], id) /\ UNCHANGED <<prog, st, id, n>>
Deleted == op[1] = "deleted" /\ op' = <<"">> /\ st' = "none" /\ id' = 0 /\ ev' = "DEL" /\ UNCHANGED <<prog, n, life>>
End == st = "none" /\ Idle /\ op' = <<"end">> /\ ev' = "end" /\ UNCHANGED <<prog, st, id, n, life>>

Next == \/ Create \/ Query \/ Constructs \/ Assigned \/ AssignThrows \/ Read \/ MoveOut \/ Moves \/ Moved \/ Rethrow \/ Destroy \/ Dtor \/ Deleted \/ End
        \/ \E i \in Ids : AssignRef(i) \/ Write(i) \/ Stash(i) \/ \E h \in {"c", "k", "m", "x"} : AssignVal(i, h)
Spec == Init /\ [][Next]_<<vars, ev>>

Consistent == /\ st = "exc" => Try
              /\ st \in {"none", "empty"} => life = 0
              /\ st = "value" /\ K = "val" => life = 1
              /\ st = "exc" => life = 1
=============================================================================
