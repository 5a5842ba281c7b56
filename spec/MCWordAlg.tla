------------------------------ MODULE MCWordAlg -----------------------------
(* L2 = L0: every word algorithm of arithmetic.rs computes the operation of *)
(* BVNat, at every width from 1 to MaxW with words of WB bits (so widths    *)
(* below, at and above several word boundaries), for all operands.          *)
EXTENDS BVNat, WordAlg, TLC
CONSTANT MaxW
VARIABLES w, x, y
Init == w \in 1..MaxW /\ x \in Values(w) /\ y \in Values(w)
Next == UNCHANGED <<w, x, y>>
Spec == Init /\ [][Next]_<<w, x, y>>
ToWords(n, v) == [i \in 1..WordsFor(v) |-> (n \div 2^(WB * (i - 1))) % 2^WB]
NumberOf(d)   == FoldRight(LAMBDA e, acc : acc * 2^WB + e, d, 0)
(* d is the canonical form of n at width v *)
Is(d, n, v)   == Len(d) = WordsFor(v) /\ (\A i \in DOMAIN d : d[i] \in 0..MAX) /\ NumberOf(d) = n /\ n < 2^v
X == ToWords(x, w)
Y == ToWords(y, w)
Arith == Is(AddW(X, Y, w), NAdd(x, y, w), w) /\ Is(SubW(X, Y, w), NSub(x, y, w), w)
      /\ Is(MulW(X, Y, w), NMul(x, y, w), w) /\ Is(NegW(X, w), NNeg(x, w), w)
(* a width is smaller than the largest word (32 and 64 bits in the code), or amounts of 2^WB and more were
   taken for excessive *)
Shift == w <= MAX =>
         Is(ShlW(X, Y, w), NShl(x, y, w), w) /\ Is(LshrW(X, Y, w), NLshr(x, y, w), w) /\ Is(AshrW(X, Y, w), NAshr(x, y, w), w)
RECURSIVE Bitwise(_, _, _)
Bitwise(Op(_, _), a, b) == IF a = 0 /\ b = 0 THEN 0 ELSE Op(a % 2, b % 2) + 2 * Bitwise(Op, a \div 2, b \div 2)
Logic == Is(NotW(X, w), NNot(x, w), w)
      /\ Is(AndW(X, Y), Bitwise(LAMBDA p, q : p * q, x, y), w)
      /\ Is(OrW(X, Y), Bitwise(LAMBDA p, q : p + q - p * q, x, y), w)
      /\ Is(XorW(X, Y), Bitwise(LAMBDA p, q : (p + q) % 2, x, y), w)
      /\ \A i \in 0..(w - 1) : /\ BitSet(X, i) = (NBit(x, i) = 1)
                               /\ Is(SetBitW(X, i), x + (1 - NBit(x, i)) * 2^i, w)
                               /\ Is(ClearBitW(X, i), x - NBit(x, i) * 2^i, w)
Order == GtW(X, Y) = (x > y) /\ GeW(X, Y) = (x >= y) /\ EqW(X, Y) = (x = y)
      /\ SgtW(X, Y, w) = (Signed(x, w) > Signed(y, w)) /\ SgeW(X, Y, w) = (Signed(x, w) >= Signed(y, w))
      /\ IsNegW(X, w) = (Signed(x, w) < 0)
(* y plays no part here, or that of the other half of a concatenation *)
Move  == /\ y = 0 => /\ \A hi \in 0..(w - 1), lo \in 0..(w - 1) : lo <= hi => Is(SliceW(X, hi, lo), NSlice(x, hi, lo), hi - lo + 1)
                     /\ \A by \in 0..(2 * WB + 1) : Is(ZextW(X, by, w), x, w + by) /\ Is(SextW(X, by, w), NSext(x, w, by), w + by)
         /\ \A v \in 1..MaxW : y < 2^v => /\ Is(ConcatW(X, ToWords(y, v), w, v), NConcat(x, y, v), w + v)
                                          /\ Is(ConcatW(ToWords(y, v), X, v, w), NConcat(y, x, w), w + v)
Agree == Arith /\ Shift /\ Logic /\ Order /\ Move
=============================================================================
