------------------------------ MODULE MCValues ------------------------------
(* Values over a few opaque payloads.  Emit: print the transitions.         *)
EXTENDS Values, TLC, Json
CONSTANTS X, H, Emit
VARIABLES last, orig             \* orig[h]: an independent account of what slot h has to show
vars == <<slots, last, orig>>
Hs == 1..H
Kinds == {"bv", "arr"}
Lab(op, h, s, kind, x) == last' = [op |-> op, h |-> h, s |-> s, kind |-> kind, x |-> x]
Init == slots = [h \in Hs |-> None] /\ last = [op |-> "init"] /\ orig = [h \in Hs |-> <<>>]
Next == \/ \E h \in Hs, k \in Kinds, x \in 1..X : WrapUp(h, k, x) /\ Lab("wrap", h, 0, k, x) /\ orig' = [orig EXCEPT ![h] = <<k, x>>]
        \/ \E h \in Hs, s \in Hs : Clone(h, s) /\ Lab("clone", h, s, "", 0) /\ orig' = [orig EXCEPT ![h] = orig[s]]
        \/ \E h \in Hs, x \in 1..X : x # slots[h].x /\ Modify(h, x) /\ Lab("modify", h, 0, slots[h].kind, x) /\ orig' = [orig EXCEPT ![h] = <<@[1], x>>]
        \/ \E h \in Hs, k \in Kinds : Refuse(h, k) /\ Lab("unwrap", h, 0, k, 0) /\ orig' = [orig EXCEPT ![h] = <<>>]
        \/ \E h \in Hs, k \in Kinds : Live(h) /\ Unwrap(h, k, slots[h].x) /\ Lab("unwrap", h, 0, k, 0) /\ orig' = [orig EXCEPT ![h] = <<>>]
        \/ \E h \in Hs, s \in Hs : Live(h) /\ Live(s) /\ Read /\ Lab("eq", h, s, "", 0) /\ UNCHANGED orig
Spec == Init /\ [][Next]_vars
Kept == \A h \in Hs : orig[h] = IF Live(h) THEN <<slots[h].kind, slots[h].x>> ELSE <<>>
(* equality of values is an equivalence as long as that of the payloads is one *)
SameX(h, s) == slots[h].x = slots[s].x
Equivalence == /\ \A h \in Hs : Live(h) => Equal(h, h, SameX(h, h))
               /\ \A h, s \in Hs : Equal(h, s, SameX(h, s)) = Equal(s, h, SameX(s, h))
               /\ \A h, s, q \in Hs : Equal(h, s, SameX(h, s)) /\ Equal(s, q, SameX(s, q)) => Equal(h, q, SameX(h, q))
(* every step changes at most the slot it names *)
Others == [][\A h \in Hs : h # last'.h => slots'[h] = slots[h]]_vars
View == <<slots, orig>>
EmitStep == Emit => PrintT("EDGE " \o ToJson([s |-> slots, o |-> last', t |-> slots']))
=============================================================================
