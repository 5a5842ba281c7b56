------------------------------- MODULE TextAlg ------------------------------
(* L2: conversions to and from text, bytes and integers as io/*.rs and      *)
(* ops.rs compute them, word by word.  Constants stand for the sizes of the *)
(* code: words of WB bits (64), HB bits per hexadecimal digit (4), BB bits  *)
(* per byte (8), half words (32 bits), and the base DB (10) with DW digits  *)
(* per word (19, DB^DW <= 2^WB).  Text is a sequence of digit values, the   *)
(* sign and the plus are flags; Bad is a character that is no digit.        *)
EXTENDS WordAlg
CONSTANTS HB, BB, DB, DW
Bad == 99
BitsOf(n) == IF n = 0 THEN 0 ELSE CHOOSE k \in 1..(8 * WB) : 2^(k - 1) <= n /\ n < 2^k
Cat(parts) == FoldLeft(LAMBDA acc, p : acc \o p, <<>>, parts)

(* ---- printing ---- *)
DigitsOfWord(x, bits, k) == [i \in 1..k |-> (x \div 2^(bits * (k - i))) % 2^bits]      \* the last k digits of a word
BitStr(s, w) ==
    IF w = 0 THEN <<>>
    ELSE DigitsOfWord(s[Len(s)], 1, ((w - 1) % WB) + 1) \o Cat([i \in 1..(Len(s) - 1) |-> DigitsOfWord(s[Len(s) - i], 1, WB)])
HexStr(s, w) ==
    LET msb == ((w % WB) + HB - 1) \div HB
        skip == IF msb > 0 THEN 1 ELSE 0
    IN  IF w = 0 THEN <<>>
        ELSE DigitsOfWord(s[Len(s)], HB, msb) \o Cat([i \in 1..(Len(s) - skip) |-> DigitsOfWord(s[Len(s) - skip + 1 - i], HB, WB \div HB)])
Select(s, w) == SubSeq(s, 1, WordsFor(w))
SignedStr(Str(_, _), s, w) ==
    LET c == NegW(s, w)
        mw == IF IsNegW(c, w) THEN w ELSE w - 1
    IN  IF IsNegW(s, w) THEN [neg |-> TRUE, ds |-> Str(Select(c, mw), mw)]
        ELSE [neg |-> FALSE, ds |-> Str(Select(s, w - 1), w - 1)]
WordsUsed(s) == LET S == {i \in DOMAIN s : s[i] # 0} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : j <= i
(* the digits of a number, without leading zeros, in base DB *)
RECURSIVE Plain(_)
Plain(n) == IF n < DB THEN <<n>> ELSE Plain(n \div DB) \o <<n % DB>>
Padded(n) == [i \in 1..DW |-> (n \div DB^(DW - i)) % DB]
(* one pass over the words, from the most significant one: quotient and remainder by DB^DW *)
DivStep(s) == FoldRight(LAMBDA x, acc : LET v == acc[1] * 2^WB + x IN <<v % DB^DW, <<v \div DB^DW>> \o acc[2]>>, s, <<0, <<>>>>)
RECURSIVE Groups(_)
Groups(s) == IF WordsUsed(s) = 0 THEN <<>> ELSE LET d == DivStep(s) IN Groups(d[2]) \o <<d[1]>>
DecStr(s) ==
    LET n == WordsUsed(s)
        g == Groups(SubSeq(s, 1, n))
    IN  IF n = 0 THEN <<0>>
        ELSE IF n = 1 THEN Plain(s[1])
        ELSE IF n = 2 THEN Plain(s[1] + s[2] * 2^WB)
        ELSE Plain(g[1]) \o Cat([i \in 1..(Len(g) - 1) |-> Padded(g[i + 1])])

(* ---- parsing into out, which has old contents: the outcome and the words *)
R(kind, out) == [kind |-> kind, out |-> out]
Zeroed(out) == Fill(0, Len(out))
StripZeros(t) == LET S == {i \in DOMAIN t : t[i] # 0} IN IF S = {} THEN <<>> ELSE SubSeq(t, CHOOSE i \in S : \A j \in S : i <= j, Len(t))
(* base 2 (bits = 1) and 16 (bits = HB): fill words from the left, whenever what is left is a number of full words *)
ParsePow(t0, bits, out, w) ==
    LET t == StripZeros(t0)
        n == Len(t)
        per == WB \div bits
        width == (n - 1) * bits + (IF bits = 1 THEN 1 ELSE BitsOf(t[1]))
        first == ((n * bits + WB - 1) \div WB) - 1
        Step(acc, i) ==            \* <<failed, word, index of the next word (from 0), out>>
            LET flush == i > 1 /\ (n - i + 1) % per = 0
                o  == IF flush THEN [acc[4] EXCEPT ![acc[3] + 1] = acc[2]] ELSE acc[4]
                ix == IF flush THEN acc[3] - 1 ELSE acc[3]
                wd == IF flush THEN 0 ELSE acc[2]
            IN  IF acc[1] THEN acc
                ELSE IF t[i] >= 2^bits THEN <<TRUE, wd, ix, o>>
                ELSE <<FALSE, WOr(WShl(wd, bits), t[i]), ix, o>>
        r == FoldLeftDomain(Step, <<FALSE, 0, first, out>>, t)
    IN  IF n = 0 THEN R("ok", out)
        ELSE IF bits > 1 /\ t[1] >= 2^bits THEN R("invalid", out)
        ELSE IF width > w THEN R("exceeds", out)
        ELSE IF r[1] THEN R("invalid", r[4])
        ELSE IF r[3] # 0 THEN R("index", r[4])
        ELSE R("ok", [r[4] EXCEPT ![1] = r[2]])
(* any base: multiply and add *)
ParseN(t, radix, out, w) ==
    LET MulAdd(o, d) == FoldLeft(LAMBDA acc, x : LET v == x * radix + acc[1] IN <<v \div 2^WB, Append(acc[2], v % 2^WB)>>, <<d, <<>>>>, o)
        Step(acc, d) ==
            IF acc.kind # "ok" THEN acc
            ELSE IF d >= radix THEN R("invalid", Zeroed(out))
            ELSE LET m == MulAdd(acc.out, d)
                 IN  IF m[1] # 0 \/ m[2][Len(out)] > Mask(w % WB) THEN R("exceeds", Zeroed(out)) ELSE R("ok", m[2])
    IN  FoldLeft(Step, R("ok", out), t)
(* u64::from_str_radix and u128::from_str_radix into cap bits: left to right *)
ParseStd(t, radix, cap) ==
    FoldLeft(LAMBDA acc, d : IF acc[1] # "ok" THEN acc ELSE IF d >= radix THEN <<"invalid", 0>>
                             ELSE IF acc[2] * radix + d >= 2^cap THEN <<"exceeds", 0>> ELSE <<"ok", acc[2] * radix + d>>, <<"ok", 0>>, t)
(* neg: '-' in front; t: what follows (a non-empty sequence of digits, no plus) *)
FromStr(neg, t, radix, out, w) ==
    LET n  == Len(out)
        s  == ParseStd(t, radix, n * WB)
        z  == Zeroed(out)
        r  == IF n <= 2
              THEN IF s[1] # "ok" THEN R(s[1], out)
                   ELSE IF n = 1 THEN (IF s[2] > Mask(w) THEN R("exceeds", out) ELSE R("ok", <<s[2]>>))
                   ELSE IF s[2] \div 2^WB > Mask(w % WB) THEN R("exceeds", out) ELSE R("ok", <<s[2] % 2^WB, s[2] \div 2^WB>>)
              ELSE IF radix = 2 THEN ParsePow(t, 1, z, w)
              ELSE IF radix = 2^HB THEN ParsePow(t, HB, z, w)
              ELSE ParseN(t, radix, z, w)
    IN  IF neg /\ r.kind = "ok" THEN R("ok", NegW(r.out, w)) ELSE r

(* ---- bytes ---- *)
ToBytes(s, w) ==
    LET count == (w + BB - 1) \div BB
        all == Cat([i \in DOMAIN s |-> [k \in 1..(WB \div BB) |-> (s[i] \div 2^(BB * (k - 1))) % 2^BB]])
    IN  SubSeq(all, 1, IF Len(all) < count THEN Len(all) ELSE count)
FromBytes(b, w) ==
    LET per == WB \div BB
    IN  MaskMsb(FoldLeftDomain(LAMBDA d, i : [d EXCEPT ![(i - 1) \div per + 1] = WOr(@, WShl(b[i], BB * ((i - 1) % per)))], Fill(0, WordsFor(w)), b), w)

(* ---- integers: sign and magnitude, least significant word first, no leading zero words *)
RECURSIVE WordsOfNum(_)
WordsOfNum(n) == IF n = 0 THEN <<>> ELSE <<n % 2^WB>> \o WordsOfNum(n \div 2^WB)
IterToWord(ws, w) ==
    LET n == WordsFor(w)
        d == [i \in 1..n |-> IF i <= Len(ws) THEN ws[i] ELSE 0]
        c == IF Len(ws) < n THEN Len(ws) ELSE n
    IN  IF c = n THEN MaskMsb(d, w) ELSE d
FromInt(neg, mag, w) == LET d == IterToWord(WordsOfNum(mag), w) IN IF neg THEN NegW(d, w) ELSE d
HalvesNum(s) == FoldRight(LAMBDA x, acc : acc * 2^WB + (x % 2^(WB \div 2)) + (x \div 2^(WB \div 2)) * 2^(WB \div 2), s, 0)
ToInt(s, w) == IF IsNegW(s, w) THEN 0 - HalvesNum(NegW(s, w)) ELSE HalvesNum(s)
NoInt == 2^(3 * WB + 1)
ToWordInt(s) == IF \E i \in 2..Len(s) : s[i] # 0 THEN NoInt ELSE s[1]
SignedWord(x) == IF x >= 2^(WB - 1) THEN x - 2^WB ELSE x
ToSignedWord(s, w) ==
    LET zero == \A i \in 2..Len(s) : s[i] = 0
        ones == s[Len(s)] = Mask(w % WB) /\ \A i \in 2..(Len(s) - 1) : s[i] = MAX
        neg  == s[1] >= 2^(WB - 1)
    IN  IF w = WB THEN SignedWord(s[1])
        ELSE IF w < WB THEN IF IsNegW(s, w) THEN SignedWord(WOr(s[1], WShl(Mask(WB - w), w))) ELSE s[1]
        ELSE IF zero /\ ~ones /\ ~neg THEN s[1]
        ELSE IF ~zero /\ ones /\ neg THEN SignedWord(s[1])
        ELSE NoInt
(* v: a word, read as unsigned or signed integer *)
FromWord(v, w) == MaskMsb([i \in 1..WordsFor(w) |-> IF i = 1 THEN v ELSE 0], w)
FromSignedWord(v, w) == IF WordsFor(w) = 1 THEN <<WAnd(v, Mask(w))>> ELSE SextW(<<v>>, w - WB, WB)
(* debug builds refuse integers that do not fit *)
AcceptsWord(v, w) == FromWord(v, w)[1] = v
AcceptsSignedWord(v, w) ==
    LET d == FromSignedWord(v, w)
    IN  IF IsNegW(d, w) THEN (IF w < WB THEN WOr(d[1], WShl(Mask(WB - w), w)) = v ELSE d[1] = v) ELSE d[1] = v
(* the width of an integer when it is deduced *)
CountBits(n) == LET ws == WordsOfNum(n) IN IF ws = <<>> THEN 0 ELSE Len(ws) * WB - (WB - BitsOf(ws[Len(ws)]))
CountSigned(n) == LET ws == WordsOfNum(n) IN IF ws = <<>> THEN 1 ELSE Len(ws) * WB - (WB - BitsOf(ws[Len(ws)])) + 1
=============================================================================
