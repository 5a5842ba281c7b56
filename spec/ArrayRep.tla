------------------------------ MODULE ArrayRep ------------------------------
(* How arrays are stored (src/array/owned.rs), with the sizes of bytes and  *)
(* words as constants so that every kind of storage occurs in small types:  *)
(* dense arrays as one bit, one byte, one word per element, or a flat       *)
(* vector of words; sparse arrays as a default and a map whose keys and     *)
(* values are words or vectors.  MCArrayRep shows that this refines Tables. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS ByteBits, WordBits
VARIABLE reps                    \* handle -> representation

Words(dw)   == (dw + WordBits - 1) \div WordBits
Base        == 2^WordBits
WordsOf(v, dw) == [k \in 1..Words(dw) |-> (v \div Base^(k - 1)) % Base]
RECURSIVE ValueOf(_)
ValueOf(ws) == IF ws = <<>> THEN 0 ELSE Head(ws) + Base * ValueOf(Tail(ws))

DenseKind(dw)      == IF dw = 1 THEN "bit" ELSE IF dw <= ByteBits THEN "byte" ELSE IF dw <= WordBits THEN "word" ELSE "big"
SparseKind(iw, dw) == IF iw > WordBits THEN "bigbig" ELSE IF dw > WordBits THEN "wordbig" ELSE "wordword"
Dense(iw, dw, data)      == [form |-> "dense", kind |-> DenseKind(dw), iw |-> iw, dw |-> dw, data |-> data, def |-> 0, map |-> <<>>]
Sparse(form, iw, dw, d, m) == [form |-> form, kind |-> SparseKind(iw, dw), iw |-> iw, dw |-> dw, data |-> <<>>, def |-> d, map |-> m]
NoMap == [k \in {} |-> 0]

(* ---- dense ---- *)
RECURSIVE RepeatSeq(_, _)
RepeatSeq(ws, n) == IF n = 0 THEN <<>> ELSE ws \o RepeatSeq(ws, n - 1)
NewDense(iw, dw, d) ==
    Dense(iw, dw, IF DenseKind(dw) = "big" THEN RepeatSeq(WordsOf(d, dw), 2^iw) ELSE [i \in 1..2^iw |-> d])
SelectDense(r, i) ==
    IF r.kind = "big" THEN ValueOf(SubSeq(r.data, Words(r.dw) * i + 1, Words(r.dw) * (i + 1))) ELSE r.data[i + 1]
StoreDense(r, i, v) ==
    [r EXCEPT !.data = IF r.kind = "big"
        THEN LET n == Words(r.dw)
                 ws == WordsOf(v, r.dw)
             IN  [k \in DOMAIN r.data |-> IF k > n * i /\ k <= n * (i + 1) THEN ws[k - n * i] ELSE r.data[k]]
        ELSE [r.data EXCEPT ![i + 1] = IF r.kind = "byte" THEN v % 2^ByteBits ELSE v]]
ClearDense(r) == [r EXCEPT !.data = [k \in DOMAIN r.data |-> 0]]
SameDense(a, b) == a.data = b.data
SliceDense(dw, iw, vs) == Dense(iw, dw, [i \in 1..2^iw |-> IF i <= Len(vs) THEN vs[i] ELSE 0])

(* ---- sparse: the default never occurs in the map ---- *)
Without(m, i)    == [k \in (DOMAIN m) \ {i} |-> m[k]]
With(m, i, v) == [k \in (DOMAIN m) \cup {i} |-> IF k = i THEN v ELSE m[k]]
NewSparse(form, iw, dw, d) == Sparse(form, iw, dw, d, NoMap)
SelectSparse(r, i)   == IF i \in DOMAIN r.map THEN r.map[i] ELSE r.def
StoreSparse(r, i, v) == [r EXCEPT !.map = IF v = r.def THEN Without(r.map, i) ELSE With(r.map, i, v)]
ClearSparse(r)       == [r EXCEPT !.def = 0, !.map = NoMap]
SameSparse(a, b) ==
    IF a.def = b.def THEN a.map = b.map
    ELSE (* only if no index carries both defaults *)
         /\ 2^a.iw = Cardinality(DOMAIN a.map) + Cardinality((DOMAIN b.map) \ (DOMAIN a.map))
         /\ \A k \in DOMAIN a.map : SelectSparse(b, k) = a.map[k]
         /\ \A k \in DOMAIN b.map : SelectSparse(a, k) = b.map[k]

(* ---- both ---- *)
Select(r, i)   == IF r.form = "dense" THEN SelectDense(r, i) ELSE SelectSparse(r, i)
StoreIn(r, i, v) == IF r.form = "dense" THEN StoreDense(r, i, v) ELSE StoreSparse(r, i, v)
ClearIn(r)     == IF r.form = "dense" THEN ClearDense(r) ELSE ClearSparse(r)
RECURSIVE StoreAll(_, _, _)
StoreAll(r, m, ks) == IF ks = {} THEN r
                      ELSE LET k == CHOOSE x \in ks : TRUE IN StoreAll(StoreDense(r, k, m[k]), m, ks \ {k})
(* a dense array of the default into which the entries are stored *)
Densify(r)  == IF r.form = "dense" THEN r ELSE StoreAll(NewDense(r.iw, r.dw, r.def), r.map, DOMAIN r.map)
(* a value d that occurs becomes the default (the code counts: any frequent *)
(* one, or the best of those seen before it gives up)                       *)
Sparsify(r, d) == Sparse("bare", r.iw, r.dw, d,
    [i \in {j \in 0..(2^r.iw - 1) : SelectDense(r, j) # d} |-> SelectDense(r, i)])
Defaults(r) == {SelectDense(r, i) : i \in 0..(2^r.iw - 1)}
Same(a, b) ==
    IF a.iw # b.iw \/ a.dw # b.dw THEN <<>>
    ELSE CASE a.form = "dense" /\ b.form = "dense" -> <<SameDense(a, b)>>
           [] a.form # "dense" /\ b.form # "dense" -> <<SameSparse(a, b)>>
           [] a.form = "dense" /\ b.form # "dense" -> <<SameDense(Densify(b), a)>>
           [] OTHER                                -> <<SameDense(Densify(a), b)>>
Entries(r) == {<<k, r.map[k]>> : k \in DOMAIN r.map}

(* ---- what it stands for ---- *)
Meaning(r) == [rep |-> r.form, iw |-> r.iw, dw |-> r.dw, f |-> [i \in 1..2^r.iw |-> Select(r, i - 1)]]
WellFormed(r) ==
    LET V == 0..(2^r.dw - 1)
    IN  IF r.form = "dense"
        THEN /\ r.kind = DenseKind(r.dw)
             /\ Len(r.data) = (IF r.kind = "big" THEN Words(r.dw) ELSE 1) * 2^r.iw
             /\ \A i \in 0..(2^r.iw - 1) : SelectDense(r, i) \in V
        ELSE /\ r.kind = SparseKind(r.iw, r.dw) /\ r.def \in V
             /\ \A k \in DOMAIN r.map : k \in 0..(2^r.iw - 1) /\ r.map[k] \in V \ {r.def}
=============================================================================
