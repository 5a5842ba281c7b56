------------------------------- MODULE BVNat -------------------------------
(* L0: the definitional semantics of every bit-vector operation, over the   *)
(* integers.  A value of width w is a natural number below 2^w; its signed  *)
(* reading is the two's complement one.  Everything else in this directory  *)
(* is checked against these definitions (MCBits, MCWordAlg).                *)
EXTENDS Integers

Pow2(n)        == 2^n
Values(w)      == 0 .. (2^w - 1)
Signed(x, w)   == IF w > 0 /\ x >= 2^(w-1) THEN x - 2^w ELSE x
Wrap(i, w)     == i % (2^w)                      \* i may be negative

NAdd(x, y, w)  == Wrap(x + y, w)
NSub(x, y, w)  == Wrap(x - y, w)
NMul(x, y, w)  == Wrap(x * y, w)
NNeg(x, w)     == Wrap(0 - x, w)
NNot(x, w)     == (2^w - 1) - x
NShl(x, s, w)  == IF s >= w THEN 0 ELSE Wrap(x * 2^s, w)
NLshr(x, s, w) == IF s >= w THEN 0 ELSE x \div 2^s
NAshr(x, s, w) == IF s >= w THEN (IF Signed(x, w) < 0 THEN 2^w - 1 ELSE 0)
                  ELSE Wrap(Signed(x, w) \div 2^s, w)    \* \div rounds down
NBit(x, i)     == (x \div 2^i) % 2
NSlice(x, hi, lo)      == (x \div 2^lo) % 2^(hi - lo + 1)
NConcat(x, y, wy)      == x * 2^wy + y
NZext(x)               == x
NSext(x, w, by)        == Wrap(Signed(x, w), w + by)
NUlt(x, y)     == x < y
NSlt(x, y, w)  == Signed(x, w) < Signed(y, w)
=============================================================================
