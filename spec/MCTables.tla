------------------------------ MODULE MCTables ------------------------------
(* Arrays (default and finitely many exceptions) against Tables (total      *)
(* functions): the same actions on both keep them in step, equality agrees, *)
(* and an enumeration of entries is accepted by one exactly if the other    *)
(* accepts it.  Exhaustive for small types.                                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
CONSTANTS IW, D
VARIABLES arrs, tabs
A == INSTANCE Arrays
T == INSTANCE Tables
H  == {1, 2}
Ix == 0..(2^IW - 1)
V  == 0..(D - 1)
Init == arrs = [h \in H |-> A!Make("dense", IW, 8, 0)]
     /\ tabs = [h \in H |-> [rep |-> "dense", iw |-> IW, dw |-> 8, f |-> T!Const(IW, 0)]]
Const(v) == [a |-> v, b |-> 0, m |-> D]
IxId(k, iw) == k
Next == \E h \in H :
    \/ \E v \in V, r \in {"dense", "sparse", "bare"} : A!New(h, r, IW, 8, v) /\ T!New(h, r, IW, 8, v)
    \/ \E v \in V, i \in Ix : A!Store(h, i, v) /\ T!Store(h, i, v)
    \/ \E v \in V, i \in Ix : A!Store(h, i, v) /\ T!Fill(h, i, 1, 1, Const(v))
    \/ \E n \in (2^IW - (IF IW = 0 THEN 0 ELSE 2^(IW-1) - 1))..2^IW, b \in {0, 1} :
          LET p == [a |-> 1, b |-> b, m |-> D]
          IN  A!FromSlice(h, 8, 0, [k \in 1..n |-> T!Pat(p, k - 1)], IxId) /\ T!FromSlice(h, 8, n, p)
    \/ A!Clear(h, 0) /\ T!Clear(h)
    \/ \E s \in H : A!Copy(h, s) /\ T!Copy(h, s)
    \/ A!MakeDense(h) /\ T!MakeDense(h)
    \/ \E s \in H : A!ToBare(h, s) /\ T!ToBare(h, s)
Spec == Init /\ [][Next]_<<arrs, tabs>>

InStep == \A h \in H : /\ arrs[h].rep = tabs[h].rep /\ arrs[h].iw = tabs[h].iw
                       /\ \A i \in Ix : A!At(arrs[h], i) = tabs[h].f[i + 1]
EqualityAgrees == A!IsEqual(arrs[1], arrs[2]) = T!IsEqual(tabs[1], tabs[2])
(* candidate enumerations: any partial function, possibly wrong *)
Lists  == UNION {[S -> V] : S \in SUBSET Ix}
AsSeq(m) == LET ks == SetToSortSeq(DOMAIN m, <) IN [j \in DOMAIN ks |-> <<ks[j], m[ks[j]]>>]
AsRuns(m) == LET ks == SetToSortSeq(DOMAIN m, <) IN [j \in DOMAIN ks |-> <<ks[j], 1, 1, m[ks[j]], 0>>]
ShowsAgree == \A d \in V, m \in Lists :
    /\ A!Shows(arrs[1], d, AsSeq(m)) = T!Shows(tabs[1].f, d, AsRuns(m))
    /\ A!Shows(arrs[1], d, AsSeq(m)) = (/\ \A i \in Ix : (IF i \in DOMAIN m THEN m[i] ELSE d) = tabs[1].f[i + 1]
                                        /\ \A i \in DOMAIN m : m[i] # d)
RunsAgree == \A m \in [Ix -> V] :
    T!Covered(tabs[1].f, [j \in 1..2^IW |-> <<j - 1, 1, m[j - 1], 0>>]) = (\A i \in Ix : m[i] = tabs[1].f[i + 1])
=============================================================================
