---------------------------- MODULE WalkInterner ----------------------------
(* Interner for N values, in every order that matters: every value at every *)
(* set of values interned before it.  The harness chooses the values (small *)
(* numbers, the same words at other widths, common prefixes, ...).          *)
EXTENDS Interner, TLC, Json
CONSTANTS N, Emit
VARIABLE op
O(name, v) == [op |-> name, v |-> v]
Init == tab = <<>> /\ blocks = <<>> /\ op = O("init", 0)
Next == \E v \in 1..N :
          \/ \E n \in 1..N : /\ n = (IF v \in DOMAIN tab THEN tab[v].i ELSE v)
                             /\ Intern(v, [i |-> n, w |-> 0]) /\ op' = O("intern", v)
          \/ v \in DOMAIN tab /\ Read(tab[v], v) /\ op' = O("read", v)
Spec == Init /\ [][Next]_<<tab, blocks, op>>
View == tab
EmitStep == Emit => PrintT("EDGE " \o ToJson([s |-> DOMAIN tab, o |-> op', t |-> DOMAIN tab']))
=============================================================================
