------------------------------ MODULE Interner ------------------------------
(* C15.  tab maps every value interned so far to its index.  Which index a  *)
(* new value gets is open, except that it is not in use.  Values interned   *)
(* in bulk - the numbers lo, lo+1, ... as vectors of one width - are kept   *)
(* as blocks [w, lo, ixs] so that histories of many thousand values can be  *)
(* followed.  An index is a record [i, w]; indices of vectors of different  *)
(* widths are different.                                                    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES tab, blocks
(* the number a vector denotes, -1 if it has more than 30 bits *)
NumOf(v)      == IF Len(v.d) = 0 THEN -1
                 ELSE IF (\E k \in 5..Len(v.d) : v.d[k] # 0) \/ v.d[4] >= 64 THEN -1
                 ELSE v.d[1] + 256 * v.d[2] + 65536 * v.d[3] + 16777216 * v.d[4]
Top(b)        == b.lo + Len(b.ixs) - 1
InBlock(v, b) == b.w = v.w /\ LET n == NumOf(v) IN b.lo <= n /\ n <= Top(b)
AtNum(b, n)   == b.ixs[n - b.lo + 1]
Known(v)      == v \in DOMAIN tab \/ \E k \in DOMAIN blocks : InBlock(v, blocks[k])
IndexOf(v)    == IF v \in DOMAIN tab THEN tab[v]
                 ELSE LET b == blocks[CHOOSE k \in DOMAIN blocks : InBlock(v, blocks[k])]
                      IN  [i |-> AtNum(b, NumOf(v)), w |-> v.w]
Free(ix)      == /\ \A v \in DOMAIN tab : tab[v] # ix
                 /\ \A k \in DOMAIN blocks : blocks[k].w = ix.w => \A j \in DOMAIN blocks[k].ixs : blocks[k].ixs[j] # ix.i
Intern(v, ix) == /\ IF Known(v) THEN ix = IndexOf(v) ELSE Free(ix)
                 /\ tab' = [x \in DOMAIN tab \cup {v} |-> IF x = v THEN ix ELSE tab[x]]
                 /\ UNCHANGED blocks
(* all numbers of new (a block) at once *)
InternRange(new) ==
    LET S == {new.ixs[k] : k \in DOMAIN new.ixs}
        mine == {v \in DOMAIN tab : v.w = new.w}
        other == {k \in DOMAIN blocks : blocks[k].w = new.w}
    IN  /\ Cardinality(S) = Len(new.ixs)                  \* distinct numbers, distinct indices
        /\ \A v \in mine : IF InBlock(v, new) THEN AtNum(new, NumOf(v)) = tab[v].i ELSE tab[v].i \notin S
        /\ \A k \in other : \A n \in blocks[k].lo..Top(blocks[k]) :
              IF new.lo <= n /\ n <= Top(new) THEN AtNum(new, n) = AtNum(blocks[k], n) ELSE AtNum(blocks[k], n) \notin S
        /\ blocks' = Append(blocks, new) /\ UNCHANGED tab
Read(ix, v)   == Known(v) /\ IndexOf(v) = ix /\ UNCHANGED <<tab, blocks>>
Injective     == Cardinality({tab[v] : v \in DOMAIN tab}) = Cardinality(DOMAIN tab)
=============================================================================
