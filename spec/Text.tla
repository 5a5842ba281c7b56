-------------------------------- MODULE Text --------------------------------
(* Numerals as sequences of character codes: printing and parsing.          *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSetsExt, Bits, Digits

Minus == 45
Plus  == 43
NoDigit == 99
DigitValue(c) == IF c \in 48..57 THEN c - 48
                 ELSE IF c \in 97..122 THEN c - 87
                 ELSE IF c \in 65..90 THEN c - 55
                 ELSE NoDigit
DigitCode(v)  == IF v < 10 THEN 48 + v ELSE 87 + v      \* lower case

(* ---- printing ---- *)
BitText(x) == [i \in 1..Len(x) |-> 48 + x[Len(x) + 1 - i]]
HexText(x) == LET n == CeilDiv(Len(x), 4)
                  p == Resize(x, 4 * n)
              IN  [i \in 1..n |-> LET k == 4 * (n - i) IN
                     DigitCode(p[k+1] + 2 * p[k+2] + 4 * p[k+3] + 8 * p[k+4])]

(* ---- reading ---- *)
IsNumeral(t, radix) == t # <<>> /\ \A i \in DOMAIN t : DigitValue(t[i]) < radix
DigitsOf(t) == [i \in DOMAIN t |-> DigitValue(t[i])]
Bits4 == [n \in 0..15 |-> [i \in 1..4 |-> (n \div 2^(i-1)) % 2]]
(* the bits of the number denoted by the digit sequence ds (MSD first) *)
NumberBits(ds, radix) ==
    IF radix = 2 THEN Reverse(ds)
    ELSE IF radix = 16 THEN FoldRight(LAMBDA d, acc : acc \o Bits4[d], ds, <<>>)
    ELSE AllBits(Horner(ds, radix))
SameValue(a, b) == LET n == BitLen(a) IN n = BitLen(b) /\ SubSeq(a, 1, n) = SubSeq(b, 1, n)

(* the canonical decimal text of x *)
IsDecText(t, x) == /\ IsNumeral(t, 10)
                   /\ Len(t) > 1 => t[1] # 48
                   /\ SameNumber(Horner(DigitsOf(t), 10), ToDigits(x))

(* t reads as the two's complement value of x; the empty digit sequence     *)
(* reads as zero; the minus sign is there exactly for negative values       *)
IsSignedText(t, x, radix) ==
    LET neg  == t # <<>> /\ t[1] = Minus
        body == IF neg THEN Tail(t) ELSE t
    IN  /\ body = <<>> \/ IsNumeral(body, radix)
        /\ neg = IsNeg(x)
        /\ SameValue(NumberBits(DigitsOf(body), radix), SMag(x))

(* ---- parsing ---- *)
(* What parsing text t in a radix into w bits must do: a record telling     *)
(* which outcomes are allowed; v is the value on success.                   *)
ParseSpec(t, radix, w) ==
    LET neg  == t # <<>> /\ t[1] = Minus
        t1   == IF neg THEN Tail(t) ELSE t
        plus == t1 # <<>> /\ t1[1] = Plus
        body == IF plus THEN Tail(t1) ELSE t1
        nb   == NumberBits(DigitsOf(body), radix)
        len  == BitLen(nb)
        v    == IF neg THEN Neg(Resize(nb, w)) ELSE Resize(nb, w)
        per  == IF radix = 2 THEN 1 ELSE IF radix <= 4 THEN 2 ELSE IF radix <= 8 THEN 3
                ELSE IF radix <= 16 THEN 4 ELSE 6
        R(ok, exc, inv, val) == [ok |-> ok, exc |-> exc, inv |-> inv, v |-> val]
    IN  IF t = <<>> THEN R(TRUE, FALSE, FALSE, Zeros(w))    \* the empty text denotes 0
        ELSE IF body = <<>> THEN R(FALSE, w = 0, TRUE, <<>>)
        ELSE IF ~IsNumeral(body, radix) THEN R(FALSE, Len(body) * per > w, TRUE, <<>>)
        ELSE IF neg /\ plus THEN R(len <= w, TRUE, TRUE, v)        \* "-+1": left open
        ELSE IF len > w THEN R(FALSE, TRUE, FALSE, <<>>)
        ELSE IF w = 0 THEN R(TRUE, Len(body) > 1 \/ plus, FALSE, <<>>)   \* "00", "+0" into 0 bits: left open
        ELSE R(TRUE, FALSE, FALSE, v)                                \* the value modulo 2^w

(* the width that from_bit_str / from_hex_str derive from the text *)
TextWidth(t, perDigit) ==
    LET neg  == t # <<>> /\ t[1] = Minus
        n    == IF t # <<>> /\ t[1] \in {Minus, Plus} THEN Len(t) - 1 ELSE Len(t)
    IN  n * perDigit + (IF neg THEN 1 ELSE 0)
=============================================================================
