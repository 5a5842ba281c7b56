-------------------------------- MODULE Calls -------------------------------
(* The contract of every side-effect free public call: Post(e) holds iff    *)
(* the recorded call e (operation, arguments, outcome) is allowed.          *)
(* e.a, e.b are operand values; a value is a record [w, d] with d the bytes *)
(* of all its 64-bit words (so stray bits above the width are visible).     *)
EXTENDS Integers, Sequences, SequencesExt, Bits, Digits, Text, BVNat

Words(w) == CeilDiv(w, 64)
B(v)     == SubSeq(AllBits(v.d), 1, v.w)
(* the logged value r is the canonical representation of bit sequence x *)
RIs(r, x) == /\ r.w = Len(x)
             /\ Len(r.d) = 8 * Words(r.w)
             /\ AllBits(r.d) = x \o Zeros(64 * Words(r.w) - r.w)
IsCanon(r, w) == /\ r.w = w
                 /\ Len(r.d) = 8 * Words(w)
                 /\ (IF w % 8 = 0 THEN TRUE ELSE r.d[w \div 8 + 1] < 2^(w % 8))   \* nothing above the width:
                 /\ \A k \in (CeilDiv(w, 8) + 1)..Len(r.d) : r.d[k] = 0    \* bits w+1.. of AllBits(r.d)
Bool(r, p) == r = (IF p THEN 1 ELSE 0)
N64(d) == AllBits(d)                          \* 8 bytes -> 64 bits

NoneOr(r, must, bits) == IF must THEN r.some = 1 /\ N64(r.d) = bits ELSE r.some = 0

ParsePost(r, t, radix, w) ==
    LET p == ParseSpec(t, radix, w)
    IN  CASE r.k = "ok"           -> p.ok /\ RIs(r.v, p.v)
          [] r.k = "ExceedsWidth" -> p.exc
          [] r.k = "InvalidDigit" -> p.inv
          [] OTHER                -> FALSE

(* fraction r equals (neg ? -1 : 1) * mag / 2^f *)
FracPost(r, neg, mag, f) ==
    /\ Trim(r.den) # <<>>
    /\ SameNumber(DMul(r.num, DPow2(f)), DMul(ToDigits(mag), r.den))
    /\ IF IsZero(mag) THEN TRUE ELSE Bool(r.neg, neg)

Post(e) ==
  LET a == B(e.a)
      b == B(e.b)
      r == e.r
  IN CASE e.op \in {"add", "addop"} -> RIs(r, Add(a, b))
       [] e.op \in {"sub", "subop"} -> RIs(r, Sub(a, b))
       [] e.op = "mul"   -> RIs(r, Mul(a, b))
       [] e.op = "neg"   -> RIs(r, Neg(a))
       [] e.op = "shl"   -> RIs(r, Shl(a, b))
       [] e.op = "lshr"  -> RIs(r, Lshr(a, b))
       [] e.op = "ashr"  -> RIs(r, Ashr(a, b))
       [] e.op = "and"   -> RIs(r, And(a, b))
       [] e.op = "or"    -> RIs(r, Or(a, b))
       [] e.op = "xor"   -> RIs(r, Xor(a, b))
       [] e.op = "not"   -> RIs(r, Not(a))
       [] e.op = "bit"   -> Bool(r, a[e.n + 1] = 1)
       [] e.op = "slice" -> RIs(r, Slice(a, e.n, e.m))
       [] e.op = "concat" -> RIs(r, Concat(a, b))
       [] e.op = "zext"  -> RIs(r, Zext(a, e.n))
       [] e.op = "sext"  -> RIs(r, Sext(a, e.n))
       [] e.op = "ugt"   -> Bool(r, Ult(b, a))
       [] e.op = "uge"   -> Bool(r, Ule(b, a))
       [] e.op = "ult"   -> Bool(r, Ult(a, b))
       [] e.op = "ule"   -> Bool(r, Ule(a, b))
       [] e.op = "sgt"   -> Bool(r, Slt(b, a))
       [] e.op = "sge"   -> Bool(r, Sle(b, a))
       [] e.op = "slt"   -> Bool(r, Slt(a, b))
       [] e.op = "sle"   -> Bool(r, Sle(a, b))
       [] e.op = "iseq"  -> Bool(r, a = b)
       [] e.op = "isne"  -> Bool(r, a # b)
       [] e.op = "iszero" -> Bool(r, IsZero(a))
       [] e.op = "isneg" -> Bool(r, IsNeg(a))
       [] e.op = "istru" -> Bool(r, a = <<1>>)
       [] e.op = "isfals" -> Bool(r, a = <<0>>)
       \* conversions
       [] e.op = "fromu64" -> RIs(r, Resize(N64(e.d), e.n))
       [] e.op = "fromi64" -> RIs(r, SResize(N64(e.d), e.n))
       [] e.op = "frombool" -> RIs(r, <<e.n>>)
       [] e.op = "zero"   -> RIs(r, Zeros(e.n))
       [] e.op = "ones"   -> RIs(r, Ones(e.n))
       [] e.op = "tou64"  -> NoneOr(r, UFits(a, 64), Resize(a, 64))
       [] e.op = "toi64"  -> NoneOr(r, SFits(a, 64), SResize(a, 64))
       [] e.op = "tobool" -> IF Len(a) = 1 THEN r.some = 1 /\ r.d = a ELSE r.some = 0
       [] e.op = "bitstr" -> r = BitText(a)
       [] e.op = "dbg"    -> r = BitText(a)
       [] e.op = "hexstr" -> r = HexText(a)
       [] e.op = "decstr" -> IsDecText(r, a)
       [] e.op = "sbitstr" -> IsSignedText(r, a, 2)
       [] e.op = "shexstr" -> IsSignedText(r, a, 16)
       [] e.op = "parse"  -> ParsePost(r, e.t, e.n, e.m)
       [] e.op = "parsein" -> IF r.k = "ok" THEN ParsePost(r, e.t, e.n, e.a.w)
                              ELSE ParsePost(r, e.t, e.n, e.a.w) /\ IsCanon(r.v, e.a.w)
       [] e.op = "frombit" -> ParsePost(r, e.t, 2, TextWidth(e.t, 1))
       [] e.op = "fromhex" -> ParsePost(r, e.t, 16, TextWidth(e.t, 4))
       [] e.op = "tobytes" -> Len(r) = CeilDiv(Len(a), 8) /\ r = ToDigits(a)
       [] e.op = "frombytes" -> RIs(r, ToBits(e.d, e.n))
       [] e.op = "tobui"  -> r.s = 0 /\ Trim(r.m) = Trim(ToDigits(a))
       [] e.op = "tobi"   -> Bool(r.s, IsNeg(a)) /\ Trim(r.m) = Trim(ToDigits(SMag(a)))
       [] e.op = "frombui" -> RIs(r, ToBits(e.d, e.n))
       [] e.op = "frombi" -> RIs(r, IF e.m = 1 THEN Neg(ToBits(e.d, e.n)) ELSE ToBits(e.d, e.n))
       [] e.op = "autobui" -> IsCanon(r, r.w) /\ Trim(ToDigits(B(r))) = Trim(e.d)
       [] e.op = "autobi" -> /\ IsCanon(r, r.w)
                             /\ IF Trim(e.d) = <<>> THEN IsZero(B(r))
                                ELSE Bool(e.m, IsNeg(B(r))) /\ Trim(ToDigits(SMag(B(r)))) = Trim(e.d)
       [] e.op = "ufix"   -> IF r.some = 0 THEN ~(Len(a) <= 64 /\ e.n < 64)
                             ELSE FracPost(r, FALSE, a, e.n)
       [] e.op = "sfix"   -> IF r.some = 0 THEN ~(Len(a) <= 64 /\ e.n < 64)
                             ELSE FracPost(r, IsNeg(a), SMag(a), e.n)
       [] OTHER -> FALSE

(* L0 re-check of small events: the recorded result against BVNat directly *)
SmallW == 12
RVal(r) == Val(B(r))
PostL0(e) ==
  LET w == e.a.w
      x == Val(B(e.a))
      y == Val(B(e.b))
  IN CASE e.op \in {"add", "addop"} -> RVal(e.r) = NAdd(x, y, w)
       [] e.op \in {"sub", "subop"} -> RVal(e.r) = NSub(x, y, w)
       [] e.op = "mul"  -> RVal(e.r) = NMul(x, y, w)
       [] e.op = "neg"  -> RVal(e.r) = NNeg(x, w)
       [] e.op = "not"  -> RVal(e.r) = NNot(x, w)
       [] e.op = "shl"  -> RVal(e.r) = NShl(x, y, w)
       [] e.op = "lshr" -> RVal(e.r) = NLshr(x, y, w)
       [] e.op = "ashr" -> RVal(e.r) = NAshr(x, y, w)
       [] e.op = "ugt"  -> Bool(e.r, x > y)
       [] e.op = "uge"  -> Bool(e.r, x >= y)
       [] e.op = "ult"  -> Bool(e.r, x < y)
       [] e.op = "ule"  -> Bool(e.r, x <= y)
       [] e.op = "sgt"  -> Bool(e.r, Signed(x, w) > Signed(y, w))
       [] e.op = "sge"  -> Bool(e.r, Signed(x, w) >= Signed(y, w))
       [] e.op = "slt"  -> Bool(e.r, Signed(x, w) < Signed(y, w))
       [] e.op = "sle"  -> Bool(e.r, Signed(x, w) <= Signed(y, w))
       [] e.op = "slice" -> RVal(e.r) = NSlice(x, e.n, e.m)
       [] e.op = "sext" -> e.r.w > 20 \/ RVal(e.r) = NSext(x, w, e.n)
       [] e.op = "zext" -> e.r.w > 20 \/ RVal(e.r) = x
       [] e.op = "concat" -> e.r.w > 20 \/ RVal(e.r) = NConcat(x, y, e.b.w)
       [] OTHER -> TRUE
Conforms(e) == e.o = "ok" /\ Post(e) /\ (e.a.w <= SmallW => PostL0(e))
=============================================================================
