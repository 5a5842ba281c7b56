------------------------------- MODULE Values -------------------------------
(* C21.  A Value wraps one bit-vector or one array.  What it wraps is       *)
(* opaque here (which operations on it are right is decided elsewhere): a   *)
(* payload is what can be seen of the vector or array.                      *)
EXTENDS Integers, Sequences
VARIABLE slots                   \* handle -> [kind, x]; kind in {"none", "bv", "arr"}
None        == [kind |-> "none", x |-> 0]
Live(h)     == slots[h].kind # "none"
Set(h, v)   == slots' = [slots EXCEPT ![h] = v]
WrapUp(h, kind, x) == kind \in {"bv", "arr"} /\ Set(h, [kind |-> kind, x |-> x])
Clone(h, s) == Live(s) /\ Set(h, slots[s])
(* changing the payload in place, to x, changes this value only *)
Modify(h, x) == Live(h) /\ Set(h, [slots[h] EXCEPT !.x = x])
(* unwrapping as a kind: refused for the other one; otherwise the payload;  *)
(* the value is used up in both cases                                       *)
Refuse(h, kind)    == Live(h) /\ slots[h].kind # kind /\ Set(h, None)
Unwrap(h, kind, x) == slots[h].kind = kind /\ slots[h].x = x /\ Set(h, None)
(* equality of values: of the same kind and equal in that kind              *)
Equal(h, s, inner) == slots[h].kind = slots[s].kind /\ inner
Read        == UNCHANGED slots
=============================================================================
