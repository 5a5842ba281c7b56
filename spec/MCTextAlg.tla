------------------------------ MODULE MCTextAlg -----------------------------
(* L2 = L0 for conversions: at every width up to MaxW, for all values and   *)
(* for all texts of up to MaxT digits (one of them possibly no digit).      *)
EXTENDS BVNat, TextAlg
CONSTANTS MaxW, MaxT
VARIABLES w, x, t, mode
ToWords(n, v) == [i \in 1..WordsFor(v) |-> (n \div 2^(WB * (i - 1))) % 2^WB]
NumberOf(d)   == FoldRight(LAMBDA e, acc : acc * 2^WB + e, d, 0)
Is(d, n, v)   == Len(d) = WordsFor(v) /\ (\A i \in DOMAIN d : d[i] \in 0..MAX) /\ NumberOf(d) = n /\ n < 2^v
Radices == {2, 2^HB, DB}
Horner(ds, radix) == FoldLeft(LAMBDA acc, d : acc * radix + d, 0, ds)
Alphabet == 0..((IF 2^HB > DB THEN 2^HB ELSE DB) - 1)
Texts == UNION {[1..n -> Alphabet] : n \in 1..MaxT}
(* values: all texts are read at all widths; an invalid digit is put at every place of a text *)
Init == \/ mode = "print" /\ w \in 1..MaxW /\ x \in Values(w) /\ t = <<>>
        \/ mode = "parse" /\ w \in 1..MaxW /\ x = 0 /\ t \in Texts
        \/ mode = "word" /\ w \in 1..MaxW /\ x \in 0..MAX /\ t = <<>>
        \/ mode = "int" /\ w \in 1..MaxW /\ x \in 0..(2^MaxW - 1) /\ t = <<>>
        \/ mode = "bytes" /\ w \in 1..MaxW /\ x = 0 /\ t \in UNION {[1..n -> 0..(2^BB - 1)] : n \in 0..(MaxT - 1)}
Next == UNCHANGED <<w, x, t, mode>>
Spec == Init /\ [][Next]_<<w, x, t, mode>>
X == ToWords(x, w)
Numeral(ds, radix, n) == (\A i \in DOMAIN ds : ds[i] < radix) /\ Horner(ds, radix) = n
SignedOk(p, radix) == /\ p.neg = (Signed(x, w) < 0)
                      /\ Numeral(p.ds, radix, IF p.neg THEN 0 - Signed(x, w) ELSE Signed(x, w))
Printed ==
    /\ Numeral(BitStr(X, w), 2, x) /\ Len(BitStr(X, w)) = w
    /\ Numeral(HexStr(X, w), 2^HB, x) /\ Len(HexStr(X, w)) = (w + HB - 1) \div HB
    /\ Numeral(DecStr(X), DB, x) /\ (x > 0 => DecStr(X)[1] # 0) /\ (x = 0 => Len(DecStr(X)) = 1)
    /\ SignedOk(SignedStr(BitStr, X, w), 2) /\ SignedOk(SignedStr(HexStr, X, w), 2^HB)
    /\ LET b == ToBytes(X, w) IN Len(b) = (w + BB - 1) \div BB /\ Numeral(Reverse(b), 2^BB, x) /\ Is(FromBytes(b, w), x, w)
    /\ ToInt(X, w) = Signed(x, w) /\ HalvesNum(X) = x
    /\ ToWordInt(X) = (IF x <= MAX THEN x ELSE NoInt)
    /\ ToSignedWord(X, w) = (IF Signed(x, w) \in (0 - 2^(WB - 1))..(2^(WB - 1) - 1) THEN Signed(x, w) ELSE NoInt)
(* what a parse may do (Text!ParseSpec over numbers): two errors can apply at once *)
Parsed(r, neg, ds, radix, v) ==
    LET bad == \E i \in DOMAIN ds : ds[i] >= radix
        n   == Horner(ds, radix)
    IN  IF bad THEN r.kind = "invalid" \/ (r.kind = "exceeds" /\ Len(ds) * BitsOf(radix - 1) > v)
        ELSE IF n >= 2^v THEN r.kind = "exceeds"
        ELSE r.kind = "ok" /\ Is(r.out, IF neg THEN NNeg(n, v) ELSE n, v)
Old == {Fill(0, WordsFor(w)), ToWords(2^w - 1, w), ToWords((2^w - 1) \div 3, w)}
Parse == \A radix \in Radices, neg \in BOOLEAN, out \in Old :
            /\ Parsed(FromStr(neg, t, radix, out, w), neg, t, radix, w)
            /\ \A i \in DOMAIN t : LET b == [t EXCEPT ![i] = Bad] IN Parsed(FromStr(neg, b, radix, out, w), neg, b, radix, w)
OfWord == /\ Is(FromWord(x, w), x % 2^w, w) /\ AcceptsWord(x, w) = (x < 2^w)
        /\ Is(FromSignedWord(x, w), SignedWord(x) % 2^w, w)
        /\ AcceptsSignedWord(x, w) = (SignedWord(x) \in (0 - 2^(w - 1))..(2^(w - 1) - 1))
OfInt == /\ Is(FromInt(FALSE, x, w), x % 2^w, w) /\ Is(FromInt(TRUE, x, w), (0 - x) % 2^w, w)
        /\ (LET k == CountBits(x) IN x < 2^k /\ (k > 0 => x >= 2^(k - 1)))
        /\ (LET k == CountSigned(x) IN x < 2^(k - 1) /\ (k > 1 => x >= 2^(k - 2)))
        /\ (LET k == CountSigned(x) IN x > 0 => ToInt(FromInt(TRUE, x, k), k) = 0 - x)
(* more bytes than the width has are refused (out of bounds), others are dropped bit by bit *)
Bytes == (Len(t) * BB + WB - 1) \div WB <= WordsFor(w) => Is(FromBytes(t, w), Horner(Reverse(t), 2^BB) % 2^w, w)
Agree == CASE mode = "print" -> Printed [] mode = "parse" -> Parse [] mode = "word" -> OfWord [] mode = "int" -> OfInt [] mode = "bytes" -> Bytes
=============================================================================
