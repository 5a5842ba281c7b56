------------------------------ MODULE MCArrays -----------------------------
(* The representations of array/owned.rs against Arrays, exhaustively for   *)
(* small types: a dense array is a vector of elements; a sparse one a       *)
(* default and a map that must never hold the default.  `want' is the       *)
(* abstract contents (a total function), driven by the definition of each   *)
(* action alone; the invariants say that the representation, its            *)
(* conversions and its equality algorithm agree with it.  Each transition   *)
(* is printed for replay against the code.                                  *)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS IW, D, Emit            \* index width, number of values, print transitions?
Ix == 0..(2^IW - 1)
V  == 0..(D - 1)
H  == {1, 2}
VARIABLES rep,                   \* handle -> representation
          want,                  \* handle -> total function
          op                     \* label of the last step (not part of the view)
NoMap == [x \in {} |-> 0]
Dense(f)     == [k |-> "dense", el |-> f, d |-> 0, m |-> NoMap]
Sparse(d, m) == [k |-> "sparse", el |-> NoMap, d |-> d, m |-> m]
SelectR(r, i) == IF r.k = "dense" THEN r.el[i] ELSE IF i \in DOMAIN r.m THEN r.m[i] ELSE r.d
Remove(m, i) == [x \in DOMAIN m \ {i} |-> m[x]]
Insert(m, i, v) == [x \in DOMAIN m \cup {i} |-> IF x = i THEN v ELSE m[x]]
StoreR(r, i, v) == IF r.k = "dense" THEN [r EXCEPT !.el[i] = v]
                   ELSE IF v = r.d THEN [r EXCEPT !.m = Remove(@, i)]
                   ELSE [r EXCEPT !.m = Insert(@, i, v)]
ClearR(r)    == IF r.k = "dense" THEN [r EXCEPT !.el = [i \in Ix |-> 0]] ELSE Sparse(0, NoMap)
DenseOf(r)   == IF r.k = "dense" THEN r ELSE Dense([i \in Ix |-> SelectR(r, i)])
(* the default is a most frequent value; which one is not determined *)
Freq(f, v)   == Cardinality({i \in Ix : f[i] = v})
SparseOf(r)  == IF r.k = "sparse" THEN {r}
                ELSE {Sparse(d, [i \in {j \in Ix : r.el[j] # d} |-> r.el[i]]) :
                        d \in {v \in V : \A u \in V : Freq(r.el, u) <= Freq(r.el, v)}}
(* is_equal_sparse / is_equal_mixed / dense comparison *)
EqualR(a, b) ==
    CASE a.k = "dense" /\ b.k = "dense" -> a.el = b.el
      [] a.k = "sparse" /\ b.k = "sparse" ->
            IF a.d = b.d THEN a.m = b.m
            ELSE /\ Cardinality(DOMAIN a.m) + Cardinality(DOMAIN b.m \ DOMAIN a.m) = 2^IW
                 /\ \A i \in DOMAIN a.m : (IF i \in DOMAIN b.m THEN b.m[i] ELSE b.d) = a.m[i]
                 /\ \A i \in DOMAIN b.m : (IF i \in DOMAIN a.m THEN a.m[i] ELSE a.d) = b.m[i]
      [] OTHER -> DenseOf(a).el = DenseOf(b).el

Init == /\ rep = [h \in H |-> Dense([i \in Ix |-> 0])]
        /\ want = [h \in H |-> [i \in Ix |-> 0]]
        /\ op = [op |-> "init", h |-> 0, s |-> 0, i |-> 0, v |-> 0]
Do(h, r, f, o) == rep' = [rep EXCEPT ![h] = r] /\ want' = [want EXCEPT ![h] = f] /\ op' = o
O(name, h, s, i, v) == [op |-> name, h |-> h, s |-> s, i |-> i, v |-> v]
Next == \E h \in H :
        \/ \E v \in V : \/ Do(h, Dense([i \in Ix |-> v]), [i \in Ix |-> v], O("newdense", h, 0, 0, v))
                        \/ Do(h, Sparse(v, NoMap), [i \in Ix |-> v], O("newsparse", h, 0, 0, v))
        \/ \E i \in Ix, v \in V : Do(h, StoreR(rep[h], i, v), [want[h] EXCEPT ![i] = v], O("store", h, 0, i, v))
        \/ Do(h, ClearR(rep[h]), [i \in Ix |-> 0], O("clear", h, 0, 0, 0))
        \/ Do(h, DenseOf(rep[h]), want[h], O("dense", h, 0, 0, 0))
        \/ Do(h, rep[3 - h], want[3 - h], O("clone", h, 3 - h, 0, 0))
Spec == Init /\ [][Next]_<<rep, want, op>>
View == <<rep, want>>

ReadsLastWrite == \A h \in H : \A i \in Ix : SelectR(rep[h], i) = want[h][i]
NoDefaultInMap == \A h \in H : \A i \in DOMAIN rep[h].m : rep[h].m[i] # rep[h].d
ConversionsExact == \A h \in H :
    /\ DenseOf(rep[h]).el = want[h]
    /\ \A q \in SparseOf(rep[h]) : /\ \A i \in Ix : SelectR(q, i) = want[h][i]
                                   /\ DOMAIN q.m = {i \in Ix : want[h][i] # q.d}
EqualityExact == /\ EqualR(rep[1], rep[2]) = (want[1] = want[2])
                 /\ EqualR(rep[2], rep[1]) = (want[1] = want[2])
EmitStep == Emit => PrintT("EDGE " \o ToJson([s |-> [rep |-> rep, want |-> want], o |-> op', t |-> [rep |-> rep', want |-> want']]))
=============================================================================
