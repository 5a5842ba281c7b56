------------------------------- MODULE MCBulk -------------------------------
(* Interner!InternRange is what interning the numbers one by one would do:  *)
(* checked for every reachable small table and every candidate block.       *)
EXTENDS Interner
CONSTANTS MaxI, MaxN
Num(w, n) == [w |-> w, d |-> <<n, 0, 0, 0>>]
Wide(w)   == [w |-> w, d |-> <<0, 0, 0, 0, 1>>]
Ws   == {7, 9}
Vals == {Num(w, n) : w \in Ws, n \in 0..2} \cup {Wide(7)}
Ixs  == {[i |-> i, w |-> w] : i \in 0..MaxI, w \in Ws}
Blocks == UNION {[w : {7}, lo : 0..2, ixs : [1..n -> 0..MaxI]] : n \in 1..2}
Init == tab = <<>> /\ blocks = <<>>
Next == \/ \E v \in Vals, ix \in Ixs : ix.w = v.w /\ Intern(v, ix)
        \/ \E b \in Blocks : InternRange(b)
Spec == Init /\ [][Next]_<<tab, blocks>>
OneByOne(b) ==
    /\ \A k \in DOMAIN b.ixs : LET v == Num(b.w, b.lo + k - 1)
                                   ix == [i |-> b.ixs[k], w |-> b.w]
                               IN  IF Known(v) THEN IndexOf(v) = ix ELSE Free(ix)
    /\ \A j, k \in DOMAIN b.ixs : j # k => b.ixs[j] # b.ixs[k]
Guard(b) == LET S == {b.ixs[k] : k \in DOMAIN b.ixs} IN
    /\ Cardinality(S) = Len(b.ixs)
    /\ \A v \in {v \in DOMAIN tab : v.w = b.w} : IF InBlock(v, b) THEN AtNum(b, NumOf(v)) = tab[v].i ELSE tab[v].i \notin S
    /\ \A k \in {k \in DOMAIN blocks : blocks[k].w = b.w} : \A n \in blocks[k].lo..Top(blocks[k]) :
          IF b.lo <= n /\ n <= Top(b) THEN AtNum(b, n) = AtNum(blocks[k], n) ELSE AtNum(blocks[k], n) \notin S
Bulk == \A b \in Blocks : Guard(b) = OneByOne(b)
(* every known value has one index, different values have different ones *)
Inj  == \A u, v \in Vals : Known(u) /\ Known(v) /\ u # v => IndexOf(u) # IndexOf(v)
Bound == Cardinality(DOMAIN tab) + Len(blocks) <= MaxN
=============================================================================
