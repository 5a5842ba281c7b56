------------------------------- MODULE Tables -------------------------------
(* Arrays once more, now as plain total functions: the contents of an array *)
(* are the tuple of its 2^iw values (element i+1 belongs to index i).       *)
(* Values are uninterpreted, 0 stands for the zero vector.  This is the     *)
(* definition that Arrays (default and exceptions) is checked against, and  *)
(* the form in which arrays with up to millions of elements are checked.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
VARIABLE tabs                    \* handle -> [rep, iw, dw, f]
NoTable == [rep |-> "none", iw |-> 0, dw |-> 0, f |-> <<>>]
Const(iw, v) == [i \in 1..2^iw |-> v]
Live(h) == tabs[h].rep # "none"
Set(h, a) == tabs' = [tabs EXCEPT ![h] = a]

(* the k-th value of an arithmetic pattern p = [a, b, m] *)
Pat(p, k) == (p.a + p.b * k) % p.m
New(h, rep, iw, dw, v) == Set(h, [rep |-> rep, iw |-> iw, dw |-> dw, f |-> Const(iw, v)])
(* a slice of n elements: the least index width with room for all of them   *)
IndexWidth(n) == CHOOSE k \in 0..24 : 2^k >= n /\ (k = 0 \/ 2^(k - 1) < n)
FromSlice(h, dw, n, p) ==
    LET iw == IndexWidth(n)
    IN  Set(h, [rep |-> "dense", iw |-> iw, dw |-> dw, f |-> [i \in 1..2^iw |-> IF i <= n THEN Pat(p, i - 1) ELSE 0]])
Store(h, i, v) == Live(h) /\ Set(h, [tabs[h] EXCEPT !.f[i + 1] = v])
(* n stores, at from, from + step, from + 2 step, ... *)
Fill(h, from, n, step, p) ==
    Live(h) /\ Set(h, [tabs[h] EXCEPT !.f = [i \in 1..Len(@) |->
        LET j == i - 1 - from
        IN  IF j >= 0 /\ j % step = 0 /\ j \div step < n THEN Pat(p, j \div step) ELSE @[i]]])
Clear(h)      == Live(h) /\ Set(h, [tabs[h] EXCEPT !.f = Const(tabs[h].iw, 0)])
Copy(h, s)    == Live(s) /\ Set(h, tabs[s])
MakeDense(h)  == Live(h) /\ tabs[h].rep # "bare" /\ Set(h, [tabs[h] EXCEPT !.rep = "dense"])
ToBare(h, s)  == Live(s) /\ tabs[s].rep # "bare" /\ Set(h, [tabs[s] EXCEPT !.rep = "bare"])
Read          == UNCHANGED tabs

IsEqual(a, b) == IF a.iw # b.iw \/ a.dw # b.dw THEN <<>> ELSE <<a.f = b.f>>

(* The contents f as affine runs [start, len, v, dv]: value v + dv k at     *)
(* start + k; the runs follow each other without gaps.                      *)
Covered(f, runs) ==
    /\ runs # <<>> /\ runs[1][1] = 0
    /\ \A j \in DOMAIN runs :
         LET r == runs[j]
             end == IF j = Len(runs) THEN Len(f) ELSE runs[j + 1][1]
         IN  r[1] + r[2] = end /\ \A k \in 0..(r[2] - 1) : f[r[1] + k + 1] = r[3] + r[4] * k
Listed(runs) == FoldLeft(LAMBDA acc, r : acc + r[2], 0, runs)
(* The entries a sparse array shows, in ascending order, as affine runs     *)
(* [index, len, step, v, dv]: exactly the indices whose value is not d.     *)
Shows(f, d, runs) ==
    LET Final(r) == r[1] + (r[2] - 1) * r[3]
        different == FoldLeft(LAMBDA acc, x : IF x = d THEN acc ELSE acc + 1, 0, f)
    IN  /\ \A j \in DOMAIN runs :
             LET r == runs[j]
             IN  /\ r[2] >= 1 /\ r[3] >= 1
                 /\ r[1] >= 0 /\ Final(r) < Len(f)
                 /\ j > 1 => r[1] > Final(runs[j - 1])
                 /\ \A k \in 0..(r[2] - 1) : LET x == f[r[1] + k * r[3] + 1]
                                             IN  x = r[4] + r[5] * k /\ x # d
        /\ Listed(runs) = different
=============================================================================
