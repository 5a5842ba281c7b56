------------------------------- MODULE Arrays ------------------------------
(* C16, C17, C18 (and C19 for arrays).  An array is a total function from   *)
(* indices to values, written down as a default and finitely many           *)
(* exceptions so that index widths of 64 bits and more can be handled.      *)
(* Indices and values are uninterpreted.  The representation (dense,        *)
(* sparse, bare sparse) is part of an array's state but no action's effect  *)
(* on the contents depends on it.                                           *)
EXTENDS Integers, FiniteSets, Sequences
VARIABLE arrs                    \* handle -> [rep, iw, dw, dflt, map]

NoArray     == [rep |-> "none", iw |-> 0, dw |-> 0, dflt |-> 0, map |-> [x \in {} |-> 0]]
Make(rep, iw, dw, v) == [rep |-> rep, iw |-> iw, dw |-> dw, dflt |-> v, map |-> [x \in {} |-> v]]
At(a, i)    == IF i \in DOMAIN a.map THEN a.map[i] ELSE a.dflt
Put(a, i, v) == [a EXCEPT !.map = [j \in DOMAIN a.map \cup {i} |-> IF j = i THEN v ELSE a.map[j]]]
SameType(a, b) == a.iw = b.iw /\ a.dw = b.dw
Support(a, b)  == DOMAIN a.map \cup DOMAIN b.map
(* do the exceptions of a and b together cover all 2^iw indices? *)
Covers(a, b)   == a.iw <= 30 /\ Cardinality(Support(a, b)) = 2^a.iw
ExtEq(a, b)    == /\ \A i \in Support(a, b) : At(a, i) = At(b, i)
                  /\ a.dflt = b.dflt \/ Covers(a, b)
(* the answer of is_equal: <<>> stands for None *)
IsEqual(a, b)  == IF ~SameType(a, b) THEN <<>> ELSE <<ExtEq(a, b)>>

Live(h)        == arrs[h].rep # "none"
Set(h, a)      == arrs' = [arrs EXCEPT ![h] = a]

New(h, rep, iw, dw, v) == rep \in {"dense", "sparse", "bare"} /\ Set(h, Make(rep, iw, dw, v))
(* from a slice: the index width is the least that has room for all elements *)
IndexWidth(n)  == CHOOSE k \in 0..30 : 2^k >= n /\ (k = 0 \/ 2^(k - 1) < n)
FromSlice(h, dw, zero, vs, Ix(_, _)) ==
    LET iw == IndexWidth(Len(vs))
    IN  Set(h, [Make("dense", iw, dw, zero) EXCEPT
                  !.map = [x \in {Ix(k, iw) : k \in 0..(Len(vs) - 1)} |-> vs[1 + CHOOSE k \in 0..(Len(vs) - 1) : Ix(k, iw) = x]]])
Store(h, i, v) == Live(h) /\ Set(h, Put(arrs[h], i, v))
Clear(h, zero) == Live(h) /\ Set(h, Make(arrs[h].rep, arrs[h].iw, arrs[h].dw, zero))
Copy(h, s)     == Live(s) /\ Set(h, arrs[s])        \* clone, serde, wrapping in a Value
MakeDense(h)   == Live(h) /\ arrs[h].rep # "bare" /\ Set(h, [arrs[h] EXCEPT !.rep = "dense"])
ToBare(h, s)   == Live(s) /\ arrs[s].rep # "bare" /\ Set(h, [arrs[s] EXCEPT !.rep = "bare"])
Read           == UNCHANGED arrs

(* what a sparse array may show of itself: default d and entries es (a      *)
(* sequence of <<index, value>>): every index that differs from d exactly   *)
(* once, with its value, and nothing else                                   *)
Shows(a, d, es) ==
    LET keys == {es[k][1] : k \in DOMAIN es}
        m    == [x \in keys |-> es[CHOOSE k \in DOMAIN es : es[k][1] = x][2]]
    IN  /\ Cardinality(keys) = Len(es)
        /\ \A x \in keys : m[x] # d
        /\ ExtEq(a, [a EXCEPT !.dflt = d, !.map = m])
=============================================================================
