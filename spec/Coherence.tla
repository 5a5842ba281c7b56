----------------------------- MODULE Coherence ------------------------------
(* C07.  Equality, hashing and ordering of vectors, and hash/tree maps that *)
(* rely on them.                                                            *)
(*   ord : what the library has answered so far about its total order, as a *)
(*         set of pairs <<x, y>> meaning x < y (the order itself is open)   *)
(*   map : an abstract map keyed by vectors                                 *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES ord, map
None == -1

Same(a, b) == a = b                       \* records [w, d]: same width, same bits

(* a total order consistent with equality *)
Compare(a, b, c) ==                       \* c in {-1, 0, 1} as answered
    /\ (c = 0) = Same(a, b)
    /\ c = -1 => <<b, a>> \notin ord
    /\ c = 1  => <<a, b>> \notin ord
    /\ LET new == IF c = -1 THEN {<<a, b>>} ELSE IF c = 1 THEN {<<b, a>>} ELSE {}
           \* transitive closure with one new pair
           clo(p) == {<<x, y>> \in (({p[1]} \cup {q[1] : q \in {q \in ord : q[2] = p[1]}})
                                 \X ({p[2]} \cup {q[2] : q \in {q \in ord : q[1] = p[2]}})) : TRUE}
       IN  ord' = ord \cup UNION {clo(p) : p \in new}
    /\ \A p \in ord' : <<p[2], p[1]>> \notin ord'
    /\ UNCHANGED map

Get(k)     == IF k \in DOMAIN map THEN map[k] ELSE None
Put(k, x)  == map' = [q \in DOMAIN map \cup {k} |-> IF q = k THEN x ELSE map[q]] /\ UNCHANGED ord
Drop(k)    == map' = [q \in DOMAIN map \ {k} |-> map[q]] /\ UNCHANGED ord
Size       == Cardinality(DOMAIN map)
=============================================================================
