------------------------------ MODULE MCArrayRep ----------------------------
(* From every pair of well formed representations of the types in Types,    *)
(* every operation on the representation is the operation of Tables on what *)
(* it stands for, and leads to a well formed representation again.          *)
EXTENDS ArrayRep, SequencesExt
CONSTANT Size
VARIABLE op
(* bits, bytes, words, several words; index widths below and above a word *)
Types == CASE Size = 1 -> {<<0, 1>>, <<1, 1>>, <<2, 1>>, <<0, 3>>, <<1, 2>>}
           [] Size = 2 -> {<<0, 4>>, <<1, 3>>}
           [] Size = 3 -> {<<3, 1>>}

tabs == [h \in DOMAIN reps |-> Meaning(reps[h])]
T == INSTANCE Tables
Indices(iw) == 0..(2^iw - 1)
Values(dw)  == 0..(2^dw - 1)
Flat(f, iw, dw) == IF DenseKind(dw) # "big" THEN f
    ELSE [k \in 1..(Words(dw) * 2^iw) |-> WordsOf(f[(k - 1) \div Words(dw) + 1], dw)[((k - 1) % Words(dw)) + 1]]
Denses(iw, dw)  == {Dense(iw, dw, Flat(f, iw, dw)) : f \in [1..2^iw -> Values(dw)]}
Sparses(form, iw, dw) == UNION {UNION {{Sparse(form, iw, dw, d, m) : m \in [S -> Values(dw) \ {d}]} : S \in SUBSET Indices(iw)} : d \in Values(dw)}
All(iw, dw) == Denses(iw, dw) \cup Sparses("sparse", iw, dw)
Init == op = <<>> /\ \E t \in Types : \E a \in All(t[1], t[2]), b \in All(t[1], t[2]) : reps = <<a, b>>
(* what is done to the first array; the second one is what may be copied.   *)
(* op says what is done, for Tables' action of the same name to explain it. *)
To(name, r) == op' = name /\ reps' = [reps EXCEPT ![1] = r]
Step ==
    LET r == reps[1]
    IN  \/ \E d \in Values(r.dw) : op' = <<"dense", d>> /\ T!New(1, "dense", r.iw, r.dw, d)
        \/ \E d \in Values(r.dw) : op' = <<"sparse", d>> /\ T!New(1, "sparse", r.iw, r.dw, d)
        \/ \E d \in Values(r.dw) : op' = <<"bare", d>> /\ T!New(1, "bare", r.iw, r.dw, d)
        \/ \E i \in Indices(r.iw), v \in Values(r.dw) : op' = <<"store", i, v>> /\ T!Store(1, i, v)
        \/ op' = <<"clear">> /\ T!Clear(1)
        \/ op' = <<"copy">> /\ T!Copy(1, 2)
        \/ op' = <<"make dense">> /\ T!MakeDense(1)
        \/ op' = <<"to bare">> /\ T!ToBare(1, 2)
Next ==
    LET r == reps[1]
        s == reps[2]
    IN  /\ op = <<>>
        /\ \/ \E d \in Values(r.dw), f \in {"dense", "sparse", "bare"} :
                 To(<<f, d>>, IF f = "dense" THEN NewDense(r.iw, r.dw, d) ELSE NewSparse(f, r.iw, r.dw, d))
           \/ \E i \in Indices(r.iw), v \in Values(r.dw) : To(<<"store", i, v>>, StoreIn(r, i, v))
           \/ To(<<"clear">>, ClearIn(r))
           \/ To(<<"copy">>, s)
           \/ To(<<"make dense">>, Densify(r))
           \/ s.form = "dense" /\ \E d \in Defaults(s) : To(<<"to bare">>, Sparsify(s, d))
           \/ s.form = "sparse" /\ To(<<"to bare">>, [s EXCEPT !.form = "bare"])
Spec == Init /\ [][Next]_<<reps, op>>
Refines == [][Step]_<<reps, op>>
Kept == reps
Formed  == \A h \in DOMAIN reps : WellFormed(reps[h])
SameIsExtensional == Same(reps[1], reps[2]) = T!IsEqual(tabs[1], tabs[2])
EntriesRight == \A h \in DOMAIN reps : reps[h].form # "dense" =>
    Entries(reps[h]) = {<<i, tabs[h].f[i + 1]>> : i \in {j \in Indices(reps[h].iw) : tabs[h].f[j + 1] # reps[h].def}}
(* from arrays of other types, too *)
NoOther == \A t \in Types : (t # <<reps[1].iw, reps[1].dw>>) => Same(reps[1], NewSparse("sparse", t[1], t[2], 0)) = <<>>
Slices  == \A n \in 0..2^reps[1].iw : (DenseKind(reps[1].dw) # "big" /\ T!IndexWidth(n) = reps[1].iw) =>
    \A v \in Values(reps[1].dw) :
        Meaning(SliceDense(reps[1].dw, reps[1].iw, [k \in 1..n |-> v])).f = [k \in 1..2^reps[1].iw |-> IF k <= n THEN v ELSE 0]
=============================================================================
