----------------------------- MODULE MCInterner -----------------------------
(* The design of ValueInterner (indexed.rs) with a store of words: small    *)
(* values are shared between widths, the first K numbers are preloaded.     *)
(* It refines Interner: same value, same index; different value (or width), *)
(* different index; every index keeps reading back its value.               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K,        \* preloaded numbers 0..K-1 (8 in the code)
          WV,       \* word values 0..WV-1
          MaxN,     \* number of values interned
          Widths    \* widths in words * 10 + distinguishing digit
VARIABLES words, small, large, tab
NW(w) == w \div 10
Vals == {v \in [w : Widths, d : UNION {[1..n -> 0..(WV - 1)] : n \in {NW(w) : w \in Widths}}] : Len(v.d) = NW(v.w)}
Init == words = [i \in 1..K |-> i - 1] /\ small = <<>> /\ large = <<>> /\ tab = <<>>
Put(f, k, x) == [q \in DOMAIN f \cup {k} |-> IF q = k THEN x ELSE f[q]]
GetIndex(v) ==
    LET fresh == Len(words) IN
    IF NW(v.w) = 1
    THEN LET x == v.d[1] IN
         IF x < K THEN [ix |-> x, words |-> words, small |-> small, large |-> large]
         ELSE IF x \in DOMAIN small THEN [ix |-> small[x], words |-> words, small |-> small, large |-> large]
         ELSE [ix |-> fresh, words |-> Append(words, x), small |-> Put(small, x, fresh), large |-> large]
    ELSE IF v.d \in DOMAIN large THEN [ix |-> large[v.d], words |-> words, small |-> small, large |-> large]
         ELSE [ix |-> fresh, words |-> words \o v.d, small |-> small, large |-> Put(large, v.d, fresh)]
I == INSTANCE Interner WITH blocks <- <<>>
Next == \E v \in Vals : LET g == GetIndex(v) IN
          /\ words' = g.words /\ small' = g.small /\ large' = g.large
          /\ tab' = Put(tab, v, [i |-> g.ix, w |-> v.w])
Spec == Init /\ [][Next]_<<words, small, large, tab>>
ReadBack == \A v \in DOMAIN tab : [k \in 1..NW(v.w) |-> words[tab[v].i + k]] = v.d
Refines  == I!Injective
Stable   == [][\A v \in DOMAIN tab : tab'[v] = tab[v]]_tab
Abstract == [][\E v \in Vals : \E n \in 0..20 : I!Intern(v, [i |-> n, w |-> v.w])]_tab
Bound    == Cardinality(DOMAIN tab) <= MaxN
=============================================================================
