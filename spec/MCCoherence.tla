---------------------------- MODULE MCCoherence -----------------------------
(* Whatever consistent answers are given, the remembered relation stays a   *)
(* strict order; a map step changes one key.                                *)
EXTENDS Coherence
CONSTANT V
Init == ord = {} /\ map = <<>>
Next == \E a, b \in V, c \in {-1, 0, 1} : Compare(a, b, c) \/ Put(a, 1) \/ Put(a, 2) \/ Drop(b)
Spec == Init /\ [][Next]_<<ord, map>>
Strict == /\ \A x, y \in V : <<x, y>> \in ord => <<y, x>> \notin ord /\ x # y
          /\ \A x, y, z \in V : <<x, y>> \in ord /\ <<y, z>> \in ord => <<x, z>> \in ord
=============================================================================
