------------------------------- MODULE Digits -------------------------------
(* Natural numbers of any size as little-endian digit sequences in radix    *)
(* 256 (TLC's integers are 32 bits wide).  Used for products, decimal text, *)
(* big integers and fractions.                                              *)
EXTENDS Integers, Sequences, SequencesExt, Bits

Radix == 256
CeilDiv(a, b) == (a + b - 1) \div b
At(d, k) == IF k \in DOMAIN d THEN d[k] ELSE 0

(* strip leading (most significant) zero digits: the canonical numeral *)
Trim(d) == SubSeq(d, 1, FoldLeftDomain(LAMBDA acc, k : IF d[k] # 0 THEN k ELSE acc, 0, d))
SameNumber(d, e) == Trim(d) = Trim(e)

(* carry-propagate a sequence of column sums (each below 2^23) *)
Normalize(cols) ==
    LET st == FoldLeft(LAMBDA acc, c : LET s == c + acc[1]
                                       IN <<s \div Radix, Append(acc[2], s % Radix)>>,
                       <<0, <<>>>>, cols)
        top(c) == IF c = 0 THEN <<>>
                  ELSE IF c < Radix THEN <<c>>
                  ELSE IF c < Radix * Radix THEN <<c % Radix, c \div Radix>>
                  ELSE <<c % Radix, (c \div Radix) % Radix, c \div (Radix * Radix)>>
    IN  st[2] \o top(st[1])

(* sum over columns of the long multiplication *)
Column(a, b, k) ==
    LET lo == IF k > Len(b) THEN k - Len(b) + 1 ELSE 1
        hi == IF k < Len(a) THEN k ELSE Len(a)
    IN  FoldLeftDomain(LAMBDA acc, i : acc + a[lo + i - 1] * b[k + 1 - (lo + i - 1)],
                       0, [i \in 1..(hi - lo + 1) |-> i])
DMul(a, b)  == IF a = <<>> \/ b = <<>> THEN <<>>
               ELSE Normalize([k \in 1..(Len(a) + Len(b) - 1) |-> Column(a, b, k)])
DAdd(a, b)  == Normalize([k \in 1..(IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) |-> At(a, k) + At(b, k)])
MulSmall(d, m, add) ==        \* d * m + add for m, add below 2^15
    LET st == FoldLeft(LAMBDA acc, c : LET s == c * m + acc[1]
                                       IN <<s \div Radix, Append(acc[2], s % Radix)>>,
                       <<add, <<>>>>, d)
        top(c) == IF c = 0 THEN <<>> ELSE IF c < Radix THEN <<c>> ELSE <<c % Radix, c \div Radix>>
    IN  st[2] \o top(st[1])

(* the number whose numeral, most significant digit first, is ds in radix r *)
Horner(ds, r) == FoldLeft(LAMBDA acc, x : MulSmall(acc, r, x), <<>>, ds)

(* bits <-> digits *)
Bits8 == [n \in 0..255 |-> [i \in 1..8 |-> (n \div 2^(i-1)) % 2]]
AllBits(d) == FoldLeft(LAMBDA acc, x : acc \o Bits8[x], <<>>, d)
ToBits(d, w) == LET b == AllBits(d) IN Resize(b, w)          \* number mod 2^w
ToDigits(x) ==
    [k \in 1..CeilDiv(Len(x), 8) |-> Val(SubSeq(x, 8*k - 7, IF 8*k < Len(x) THEN 8*k ELSE Len(x)))]
(* 2^n as a digit sequence *)
DPow2(n) == Rep(0, n \div 8) \o <<2^(n % 8)>>

Mul(x, y) == ToBits(DMul(ToDigits(x), ToDigits(y)), Len(x))
=============================================================================
