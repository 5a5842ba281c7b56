-------------------------------- MODULE Bits --------------------------------
(* L1: the same operations over explicit bit sequences, so that TLC can     *)
(* evaluate them at any width.  A vector of width w is a sequence of w bits *)
(* (0 or 1); element i has weight 2^(i-1).  MCBits shows that every         *)
(* operator here equals its BVNat counterpart.                              *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt

Rep(bit, n) == [i \in 1..n |-> bit]
Zeros(n)    == Rep(0, n)
Ones(n)     == Rep(1, n)
IsBV(x, w)  == Len(x) = w /\ \A i \in 1..w : x[i] \in {0, 1}

(* value of a short vector (TLC integers have 32 bits) *)
Val(x)      == FoldRight(LAMBDA bit, acc : 2 * acc + bit, x, 0)
OfNat(n, w) == [i \in 1..w |-> (n \div 2^(i-1)) % 2]

Not(x)      == [i \in DOMAIN x |-> 1 - x[i]]
And(x, y)   == [i \in DOMAIN x |-> x[i] * y[i]]
Or(x, y)    == [i \in DOMAIN x |-> IF x[i] + y[i] = 0 THEN 0 ELSE 1]
Xor(x, y)   == [i \in DOMAIN x |-> (x[i] + y[i]) % 2]

(* ripple carry: the accumulator is <<carry, sum bits so far>> *)
AddCarry(x, y, c) ==
    FoldLeftDomain(LAMBDA acc, i : LET s == x[i] + y[i] + acc[1]
                                   IN  <<s \div 2, Append(acc[2], s % 2)>>,
                   <<c, <<>>>>, x)[2]
Add(x, y)   == AddCarry(x, y, 0)
Neg(x)      == AddCarry(Zeros(Len(x)), Not(x), 1)
Sub(x, y)   == AddCarry(x, Not(y), 1)

IsZero(x)   == \A i \in DOMAIN x : x[i] = 0
Sign(x)     == IF Len(x) = 0 THEN 0 ELSE x[Len(x)]
IsNeg(x)    == Sign(x) = 1

(* The shift amount is itself a vector of the same width, possibly denoting *)
(* a huge number: it is capped at the width w of the shifted value.         *)
AmountCap == 20
Amount(s, w) ==
    IF \E i \in DOMAIN s : i > AmountCap /\ s[i] = 1 THEN w
    ELSE LET v == Val(SubSeq(s, 1, IF Len(s) < AmountCap THEN Len(s) ELSE AmountCap))
         IN  IF v < w THEN v ELSE w
ShlBy(x, k)   == Zeros(k) \o SubSeq(x, 1, Len(x) - k)
LshrBy(x, k)  == SubSeq(x, k + 1, Len(x)) \o Zeros(k)
AshrBy(x, k)  == SubSeq(x, k + 1, Len(x)) \o Rep(Sign(x), k)
Shl(x, s)     == ShlBy(x, Amount(s, Len(x)))
Lshr(x, s)    == LshrBy(x, Amount(s, Len(x)))
Ashr(x, s)    == AshrBy(x, Amount(s, Len(x)))

Slice(x, hi, lo) == SubSeq(x, lo + 1, hi + 1)
Concat(x, y)     == y \o x                    \* y supplies the low bits
Zext(x, by)      == x \o Zeros(by)
Sext(x, by)      == x \o Rep(Sign(x), by)
Resize(x, w)     == IF w <= Len(x) THEN SubSeq(x, 1, w) ELSE Zext(x, w - Len(x))
SResize(x, w)    == IF w <= Len(x) THEN SubSeq(x, 1, w) ELSE Sext(x, w - Len(x))

(* position of the most significant 1 (0 if there is none) *)
BitLen(x)   == FoldLeftDomain(LAMBDA acc, i : IF x[i] = 1 THEN i ELSE acc, 0, x)

(* order: decided at the most significant differing bit *)
Ult(x, y)   == FoldLeftDomain(LAMBDA acc, i : IF x[i] = y[i] THEN acc ELSE y[i] = 1, FALSE, x)
Slt(x, y)   == IF Sign(x) # Sign(y) THEN IsNeg(x) ELSE Ult(x, y)
Ule(x, y)   == ~Ult(y, x)
Sle(x, y)   == ~Slt(y, x)

SetBit(x, i)   == [x EXCEPT ![i + 1] = 1]
ClearBit(x, i) == [x EXCEPT ![i + 1] = 0]

(* does the unsigned / two's complement value of x fit into n bits? *)
UFits(x, n) == \A i \in DOMAIN x : i > n => x[i] = 0
SFits(x, n) == \A i \in DOMAIN x : i >= n => x[i] = Sign(x)

(* magnitude of the two's complement value; its width stays Len(x) because  *)
(* the most negative value's magnitude 2^(w-1) needs all w bits             *)
SMag(x)     == IF IsNeg(x) THEN Neg(x) ELSE x
=============================================================================
