------------------------------- MODULE WordAlg ------------------------------
(* L2: the word algorithms of arithmetic.rs, with the number of bits in a   *)
(* word as the constant WB (64 in the code).  A vector is a sequence of     *)
(* words (naturals below 2^WB), least significant first.  MCWordAlg shows   *)
(* that each of them computes the operation of BVNat, for every width       *)
(* relative to the word boundary, and keeps vectors canonical.              *)
EXTENDS Integers, Sequences, SequencesExt
CONSTANT WB
MAX          == 2^WB - 1
WordsFor(w)  == (w + WB - 1) \div WB
Fill(x, n)   == [i \in 1..n |-> x]
Mask(bits)   == IF bits = WB \/ bits = 0 THEN MAX ELSE 2^bits - 1
WShl(x, k)   == (x * 2^k) % 2^WB                 \* k < WB, as in Rust
WShr(x, k)   == x \div 2^k
WNot(x)      == MAX - x
RECURSIVE WAnd(_, _), WOr(_, _), WXor(_, _)
WAnd(a, b)   == IF a = 0 \/ b = 0 THEN 0 ELSE 2 * WAnd(a \div 2, b \div 2) + (a % 2) * (b % 2)
WOr(a, b)    == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE 2 * WOr(a \div 2, b \div 2) + (IF (a % 2) + (b % 2) > 0 THEN 1 ELSE 0)
WXor(a, b)   == IF a = 0 THEN b ELSE IF b = 0 THEN a ELSE 2 * WXor(a \div 2, b \div 2) + ((a + b) % 2)

MaskMsb(d, w) == IF Len(d) = 0 THEN d ELSE [d EXCEPT ![Len(d)] = WAnd(@, Mask(w % WB))]
IsNegW(s, w)  == WAnd(WShr(s[Len(s)], (w - 1) % WB), 1) = 1
BitSet(s, p)  == WAnd(WShr(s[p \div WB + 1], p % WB), 1) = 1
SetBitW(d, p)   == [d EXCEPT ![p \div WB + 1] = WOr(@, WShl(1, p % WB))]
ClearBitW(d, p) == [d EXCEPT ![p \div WB + 1] = WAnd(@, WNot(WShl(1, p % WB)))]

(* dst starts out as zeros of the result's size *)
Assign(n, s)  == [i \in 1..n |-> IF i <= Len(s) THEN s[i] ELSE 0]
ZextW(s, by, w) == Assign(WordsFor(w + by), s)
SextW(s, by, w) ==
    LET n == WordsFor(w + by)
        d0 == Assign(n, s)
        ls == w % WB
        d1 == IF ls > 0 THEN [d0 EXCEPT ![Len(s)] = WOr(@, WShl(Mask(WB - ls), ls))] ELSE d0
        d2 == [i \in 1..n |-> IF i > Len(s) THEN MAX ELSE d1[i]]
    IN  IF IsNegW(s, w) THEN MaskMsb(d2, w + by) ELSE d0

(* the loop "for (d, s) in dst.zip(src): d = prev | f(s); prev = g(s)" *)
Shuffle(dst, src, prev0, F(_), G(_), from) ==
    FoldLeftDomain(LAMBDA acc, k :
        LET p == from + k
        IN  IF p > Len(acc[2]) THEN acc
            ELSE <<G(src[k]), [acc[2] EXCEPT ![p] = WOr(acc[1], F(src[k]))]>>,
        <<prev0, dst>>, src)[2]
SliceInto(dst, s, hi, lo) ==
    LET src == SubSeq(s, lo \div WB + 1, hi \div WB + 1)
        sr  == lo % WB
        sl  == WB - sr
        d   == IF sr = 0 THEN [i \in DOMAIN dst |-> IF i <= Len(src) THEN src[i] ELSE dst[i]]
               ELSE Shuffle(dst, Append(Tail(src), 0), WShr(src[1], sr),
                            LAMBDA x : WShl(WAnd(x, Mask(sr)), sl), LAMBDA x : WShr(x, sr), 0)
    IN  MaskMsb(d, hi - lo + 1)
SliceW(s, hi, lo) == SliceInto(Fill(0, WordsFor(hi - lo + 1)), s, hi, lo)
ConcatW(m, l, mw, lw) ==
    LET n  == WordsFor(mw + lw)
        d0 == Assign(n, l)
        off == lw % WB
        sr == WB - off
    IN  IF off = 0 THEN [i \in 1..n |-> IF i <= Len(l) THEN d0[i] ELSE m[i - Len(l)]]
        ELSE Shuffle(d0, Append(m, 0), d0[Len(l)], LAMBDA x : WShl(WAnd(x, Mask(sr)), off), LAMBDA x : WShr(x, sr), Len(l) - 1)

NotW(s, w)    == MaskMsb([i \in DOMAIN s |-> WNot(s[i])], w)
AndW(a, b)    == [i \in DOMAIN a |-> WAnd(a[i], b[i])]
OrW(a, b)     == [i \in DOMAIN a |-> WOr(a[i], b[i])]
XorW(a, b)    == [i \in DOMAIN a |-> WXor(a[i], b[i])]

Adc(acc, a, b) == LET s == acc[1] + a + b IN <<s \div 2^WB, Append(acc[2], s % 2^WB)>>
AddW(a, b, w) == MaskMsb(FoldLeftDomain(LAMBDA acc, i : Adc(acc, a[i], b[i]), <<0, <<>>>>, a)[2], w)
SubW(a, b, w) == MaskMsb(FoldLeftDomain(LAMBDA acc, i : Adc(acc, a[i], WNot(b[i])), <<1, <<>>>>, a)[2], w)
NegW(b, w)    == MaskMsb(FoldLeftDomain(LAMBDA acc, i : Adc(acc, 0, WNot(b[i])), <<1, <<>>>>, b)[2], w)
(* one row of the school book: dst += aa * b * 2^(WB (i-1)), cut at the end *)
Row(dst, aa, b, i) ==
    FoldLeftDomain(LAMBDA acc, k :
        LET p == i + k - 1
            v == aa * b[k] + acc[2][p] + acc[1]
        IN  IF p > Len(dst) THEN acc ELSE <<v \div 2^WB, [acc[2] EXCEPT ![p] = v % 2^WB]>>,
        <<0, dst>>, b)[2]
MulW(a, b, w) ==
    IF w <= WB THEN <<WAnd((a[1] * b[1]) % 2^WB, Mask(w))>>
    ELSE MaskMsb(FoldLeftDomain(LAMBDA d, i : Row(d, a[i], b, i), Fill(0, Len(a)), a), w)

Over == -1
ShiftAmount(b, w) == IF (\E i \in 2..Len(b) : b[i] # 0) \/ b[1] >= w THEN Over ELSE b[1]
LshrW(a, b, w) ==
    LET k == ShiftAmount(b, w)
        n == WordsFor(w - k)
        part == SliceInto(Fill(0, n), a, w - 1, k)
    IN  IF k = Over THEN Fill(0, Len(a)) ELSE [i \in DOMAIN a |-> IF i <= n THEN part[i] ELSE 0]
AshrW(a, b, w) ==
    LET k  == ShiftAmount(b, w)
        d0 == LshrW(a, b, w)
        msb == w - k - 1
        lm == msb % WB
        mw == msb \div WB + 1
        d1 == IF lm < WB - 1 THEN [d0 EXCEPT ![mw] = WOr(@, WShl(Mask(WB - (lm + 1)), lm + 1))] ELSE d0
        d2 == [i \in DOMAIN d1 |-> IF i > mw THEN MAX ELSE d1[i]]
    IN  IF ~IsNegW(a, w) THEN d0
        ELSE IF k = Over THEN MaskMsb(Fill(MAX, Len(a)), w)
        ELSE IF k = 0 THEN d0 ELSE MaskMsb(d2, w)
ShlW(a, b, w) ==
    LET k  == ShiftAmount(b, w)
        sl == k % WB
        sr == WB - sl
        src == Fill(0, k \div WB) \o a
        d  == IF sl = 0 THEN SubSeq(src, 1, Len(a))
              ELSE Shuffle(Fill(0, Len(a)), src, 0, LAMBDA x : WShl(x, sl), LAMBDA x : WShr(x, sr), 0)
    IN  IF k = Over THEN Fill(0, Len(a)) ELSE MaskMsb(d, w)

(* 1: greater, -1: less, 0: equal; the most significant difference decides  *)
Cmp(a, b) == FoldLeftDomain(LAMBDA acc, i : IF a[i] > b[i] THEN 1 ELSE IF a[i] < b[i] THEN -1 ELSE acc, 0, a)
GtW(a, b) == Cmp(a, b) = 1
GeW(a, b) == Cmp(a, b) # -1
SgtW(a, b, w) == LET n == IsNegW(a, w)  m == IsNegW(b, w) IN IF n /\ ~m THEN FALSE ELSE IF ~n /\ m THEN TRUE ELSE GtW(a, b)
SgeW(a, b, w) == LET n == IsNegW(a, w)  m == IsNegW(b, w) IN IF n /\ ~m THEN FALSE ELSE IF ~n /\ m THEN TRUE ELSE GeW(a, b)
EqW(a, b) == \A i \in DOMAIN a : a[i] = b[i]
=============================================================================
