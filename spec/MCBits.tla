------------------------------- MODULE MCBits -------------------------------
(* Exhaustive check that L1 (Bits, Digits) equals L0 (BVNat): one state per *)
(* (width, x, y); the invariant compares every operator.                    *)
EXTENDS BVNat, Bits, Digits, TLC
CONSTANT MaxW
VARIABLES w, x, y
vars == <<w, x, y>>
Init == w \in 1..MaxW /\ x \in Values(w) /\ y \in Values(w)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

X == OfNat(x, w)
Y == OfNat(y, w)
Arith == /\ Val(X) = x /\ IsBV(X, w)
         /\ Val(Add(X, Y)) = NAdd(x, y, w)
         /\ Val(Sub(X, Y)) = NSub(x, y, w)
         /\ Val(Mul(X, Y)) = NMul(x, y, w)
         /\ Val(Neg(X)) = NNeg(x, w)
         /\ Val(Not(X)) = NNot(x, w)
         /\ \A i \in 0..(w-1) :
              /\ And(X,Y)[i+1] = (NBit(x,i) * NBit(y,i))
              /\ Or(X,Y)[i+1]  = (IF NBit(x,i) = 1 \/ NBit(y,i) = 1 THEN 1 ELSE 0)
              /\ Xor(X,Y)[i+1] = (IF NBit(x,i) # NBit(y,i) THEN 1 ELSE 0)
Shift == /\ Val(Shl(X, Y)) = NShl(x, y, w)
         /\ Val(Lshr(X, Y)) = NLshr(x, y, w)
         /\ Val(Ashr(X, Y)) = NAshr(x, y, w)
Order == /\ Ult(X, Y) = NUlt(x, y)
         /\ Slt(X, Y) = NSlt(x, y, w)
         /\ Ule(X, Y) = (x <= y)
         /\ Sle(X, Y) = (Signed(x, w) <= Signed(y, w))
         /\ (X = Y) = (x = y)
         /\ IsZero(X) = (x = 0)
         /\ IsNeg(X) = (Signed(x, w) < 0)
Move  == /\ \A hi \in 0..(w-1), lo \in 0..(w-1) :
               lo <= hi => Val(Slice(X, hi, lo)) = NSlice(x, hi, lo)
         /\ \A wy \in 1..w : y < 2^wy => Val(Concat(X, OfNat(y, wy))) = NConcat(x, y, wy)
         /\ \A by \in 0..3 : Val(Zext(X, by)) = NZext(x) /\ Val(Sext(X, by)) = NSext(x, w, by)
         /\ \A i \in 0..(w-1) : Concat(Slice(X, w-1, i), IF i = 0 THEN <<>> ELSE Slice(X, i-1, 0)) = X
         /\ \A i \in 0..(w-1) : Val(SetBit(X, i)) = x + (1 - NBit(x,i)) * 2^i
                             /\ Val(ClearBit(X, i)) = x - NBit(x,i) * 2^i
Conv  == /\ \A n \in 1..(w+1) : UFits(X, n) = (x < 2^n)
                            /\ SFits(X, n) = (-(2^(n-1)) <= Signed(x, w) /\ Signed(x, w) < 2^(n-1))
         /\ Val(SMag(X)) = (IF Signed(x, w) < 0 THEN -Signed(x, w) ELSE Signed(x, w))
         /\ ToBits(ToDigits(X), w) = X
(* algebra that users rely on *)
Laws  == /\ Sub(Add(X, Y), Y) = X
         /\ Neg(X) = Sub(Zeros(w), X)
         /\ Neg(Neg(X)) = X
         /\ Add(X, Y) = Add(Y, X)
         /\ Xor(X, Y) = Or(And(X, Not(Y)), And(Not(X), Y))
Agree == Arith /\ Shift /\ Order /\ Move /\ Conv /\ Laws
=============================================================================
