------------------------------ MODULE GenCalls ------------------------------
(* Calls enumerated by the specification: every combination of arguments    *)
(* from alphabets that lie around the word boundaries.  The calls of        *)
(* property Prop are written to calls.ndjson; the harness performs them on  *)
(* the real library and TraceCalls judges the answers.                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Digits, TLC, Json
CONSTANTS Prop, Deep

(* words *)
O  == <<0,0,0,0,0,0,0,0>>                               \* 0
I  == <<1,0,0,0,0,0,0,0>>                               \* 1
M  == <<255,255,255,255,255,255,255,255>>               \* 2^64 - 1
S  == <<0,0,0,0,0,0,0,128>>                             \* 2^63
P  == <<255,255,255,255,255,255,255,127>>               \* 2^63 - 1
E  == <<254,255,255,255,255,255,255,255>>               \* 2^64 - 2
X  == <<239,205,171,137,103,69,35,1>>                   \* no symmetries
A3 == {O, I, M}
A4 == {O, I, S, M}
A5 == {O, I, S, P, M}
A7 == {O, I, S, P, M, E, X}

NW(w) == CeilDiv(w, 64)
Cut(b, w, k) == LET left == w - 8 * (k - 1) IN IF left >= 8 THEN b ELSE IF left <= 0 THEN 0 ELSE b % 2^left
Flat(ws)  == FoldLeft(LAMBDA acc, q : acc \o q, <<>>, ws)
Of(w, d)  == [w |-> w, d |-> [k \in 1..(8 * NW(w)) |-> Cut(IF k <= Len(d) THEN d[k] ELSE 0, w, k)]]
V(w, ws)  == Of(w, Flat(ws))
Vals(w, A) == {V(w, ws) : ws \in [1..NW(w) -> A]}
\* (the sets below take an argument so that TLC computes only the chosen one)
None      == [w |-> 0, d |-> <<>>]
Num(w, n) == Of(w, <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>)
Pow(w, k) == Of(w, DPow2(k))                            \* 2^k (0 if k >= w)
NotOf(v)  == Of(v.w, [k \in DOMAIN v.d |-> 255 - v.d[k]])
AllOnes(w) == NotOf(Num(w, 0))
Pattern(w) == V(w, [k \in 1..NW(w) |-> X])
Lowers(w, k) == Of(w, Rep(255, k \div 8) \o <<2^(k % 8) - 1>>)        \* 2^k - 1
Min2(a, b) == IF a < b THEN a ELSE b

Call(op, a, b, n, m, t, d) == [op |-> op, a |-> a, b |-> b, n |-> n, m |-> m, t |-> t, d |-> d]
Bin(op, a, b) == Call(op, a, b, 0, 0, <<>>, <<>>)
Un(op, a, n, m) == Call(op, a, None, n, m, <<>>, <<>>)
Pairs(ops, vs) == {Bin(op, a, b) : op \in ops, a \in vs, b \in vs}
Unary(ops, vs) == {Un(op, a, 0, 0) : op \in ops, a \in vs}
Near(w)   == {k \in UNION {{64 * q - 1, 64 * q, 64 * q + 1} : q \in 0..NW(w)} \cup {1, 2, w - 2, w - 1} : k >= 0 /\ k < w}

Samples == UNION {Vals(w, A5) : w \in {1, 2, 63, 64, 65, 127, 128}} \cup UNION {Vals(w, A3) : w \in {129, 191, 192, 193}}
C02(z) == Pairs({"add", "sub"}, Vals(64, A7)) \cup Pairs({"add", "sub", "mul"}, Vals(65, A5))
       \cup Pairs({"add", "sub", "mul"}, Vals(127, A4)) \cup Pairs({"add", "sub"}, Vals(128, A5)) \cup Pairs({"mul"}, Vals(128, A4))
       \cup Pairs({"add", "sub"}, Vals(129, A3)) \cup Pairs({"add", "sub"}, Vals(192, A3)) \cup Pairs({"mul"}, Vals(64, A7)) \cup Pairs({"add", "sub"}, Vals(256, {O, M}))
       \cup Unary({"neg"}, Samples)
       \cup (IF Deep THEN Pairs({"add", "sub", "mul"}, Vals(128, A7)) \cup Pairs({"mul"}, Vals(192, A3)) \cup Pairs({"add", "sub"}, Vals(192, A4)) ELSE {})
Amounts(w) == {Num(w, k) : k \in {k \in 0..(w + 1) : w >= 9 \/ k < 2^w}} \cup {Pow(w, k) : k \in 0..(w - 1)} \cup {AllOnes(w)}
ShiftVals(w) == IF Deep THEN {Pattern(w), AllOnes(w), Pow(w, w - 1), Lowers(w, w - 1)} ELSE {Pattern(w), NotOf(Pattern(w))}
C03(z) == UNION {{Bin(op, a, k) : op \in {"shl", "lshr", "ashr"}, a \in ShiftVals(w), k \in Amounts(w)} :
              w \in {1, 2, 8, 63, 64, 65, 127, 128, 129, 192} \cup (IF Deep THEN {3, 7, 9, 16, 31, 32, 33, 100, 191, 193, 256, 257} ELSE {})}
       \cup UNION {{Bin(op, a, k) : op \in {"shl", "lshr", "ashr"}, a \in {NotOf(Pattern(w))}, k \in Vals(w, A3) \cup {V(w, <<q[1]>> \o [i \in 1..(NW(w) - 1) |-> IF i = q[2] THEN q[3] ELSE O]) : q \in {O, <<5,0,0,0,0,0,0,0>>, <<64,0,0,0,0,0,0,0>>, M} \X (1..(NW(w) - 1)) \X {I, S, M}}} :
              w \in {200, 256} \cup (IF Deep THEN {193, 319} ELSE {})}
Widths4 == {1, 7, 63, 64, 65, 128, 129, 193} \cup (IF Deep THEN {2, 3, 8, 32, 127, 191, 192, 256, 320} ELSE {})
C04(z) == Pairs({"and", "or", "xor"}, Vals(64, A7)) \cup Pairs({"and", "or", "xor"}, Vals(65, A5)) \cup Pairs({"and", "or", "xor"}, Vals(128, A4))
       \cup Pairs({"and", "or", "xor"}, Vals(129, {O, X, M})) \cup Unary({"not"}, Samples)
       \cup UNION {{Un("bit", v, i, 0) : v \in {Pow(w, i), NotOf(Pow(w, i)), Pattern(w), Pow(w, (i + 64) % w), Pow(w, (i + 1) % w)}} : <<w, i>> \in {q \in Widths4 \X (0..319) : q[2] < q[1]}}
Slices(w) == {Un("slice", v, p[1], p[2]) : v \in {Pattern(w), AllOnes(w)}, p \in {p \in Near(w) \X Near(w) : p[1] >= p[2]}}
(* pairs that differ in one word only *)
Not8(q) == [k \in 1..8 |-> 255 - q[k]]
OneWord(w) == UNION {{<<V(w, [k \in 1..NW(w) |-> x]), V(w, [k \in 1..NW(w) |-> IF k = i THEN y ELSE x])>> : y \in {Not8(x), I, S, E}} : <<x, i>> \in {O, M, X} \X (1..NW(w))}
Exts == {0, 1, 2, 31, 62, 63, 64, 65, 66, 126, 127, 128, 129, 130, 191, 192, 193}
C05(z) == UNION {Slices(w) : w \in {63, 64, 65, 127, 128, 129, 192, 193, 256}}
       \cup {Un("slice", Pattern(66), p[1], p[2]) : p \in {p \in (0..65) \X (0..65) : p[1] >= p[2]}}
       \cup (IF Deep THEN {Un("slice", Pattern(130), p[1], p[2]) : p \in {p \in (0..129) \X (0..129) : p[1] >= p[2]}} ELSE {})
       \cup UNION {{Un(op, v, by, 0) : op \in {"zext", "sext"}, v \in {Pattern(w), NotOf(Pattern(w)), Pow(w, w - 1), Lowers(w, w - 1)}, by \in Exts} : w \in {1, 2, 32, 63, 64, 65, 127, 128, 129, 192}}
       \cup UNION {{Bin("concat", a, b) : a \in {Pattern(q[1]), AllOnes(q[1])}, b \in {Pattern(q[2]), Num(q[2], 0)}} : q \in {1, 2, 32, 63, 64, 65, 66, 127, 128, 129, 192} \X {1, 2, 32, 63, 64, 65, 66, 127, 128, 129, 192}}
Cmps == {"ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle", "iseq", "isne"}
C06(z) == Pairs(Cmps, Vals(64, A5)) \cup Pairs(Cmps, Vals(65, A4)) \cup Pairs(Cmps, Vals(128, A4)) \cup Pairs(Cmps, Vals(129, {O, M})) \cup Pairs(Cmps, Vals(192, {O, S})) \cup Pairs(Cmps, Vals(256, {O, I}))
       \cup {Bin(op, q[1], q[2]) : op \in Cmps, q \in OneWord(129) \cup OneWord(192) \cup OneWord(256)}
       \cup Unary({"iszero", "isneg", "istru", "isfals"}, Samples)
       \cup UNION {{Un(op, Pow(w, i), 0, 0) : op \in {"iszero", "isneg"}} : <<w, i>> \in {q \in Widths4 \X (0..319) : q[2] < q[1]}}
       \cup (IF Deep THEN Pairs(Cmps, Vals(128, A7)) \cup Pairs(Cmps, Vals(192, A3)) ELSE {})
(* machine integers around every power of two, into every width they just fit or do not fill *)
I64(bits) == ToDigits(bits)                              \* 64 bits -> 8 bytes
U(k)   == [i \in 1..64 |-> IF i = k + 1 THEN 1 ELSE 0]   \* 2^k
U1(k)  == [i \in 1..64 |-> IF i <= k THEN 1 ELSE 0]      \* 2^k - 1
Into(k) == {w \in {k, k + 1, 63, 64, 65, 127, 128, 129, 200} : w > 0}
C08(z) == Unary({"tou64", "toi64", "tobool"}, Samples \cup Vals(66, A5) \cup Vals(130, A3) \cup {Num(0, 0)})
       \cup UNION {{Un(op, v, 0, 0) : op \in {"tou64", "toi64"}, v \in {Pow(w, k), NotOf(Pow(w, k)), Lowers(w, k), NotOf(Lowers(w, k))}} : <<w, k>> \in {64, 65, 127, 128, 129, 192} \X {0, 1, 31, 32, 61, 62, 63, 64, 65, 126, 127, 128}}
       \cup {Call("fromu64", None, None, w, 0, <<>>, I64(U1(k))) : <<w, k>> \in {q \in (0..200) \X (0..64) : q[1] \in Into(q[2]) /\ q[1] >= q[2]}}
       \cup {Call("fromu64", None, None, w, 0, <<>>, I64(U(k))) : <<w, k>> \in {q \in (0..200) \X (0..63) : q[1] \in Into(q[2] + 1) /\ q[1] > q[2]}}
       \cup {Call("fromi64", None, None, w, 0, <<>>, I64(Not(U1(k)))) : <<w, k>> \in {q \in (0..200) \X (0..63) : q[1] \in Into(q[2]) /\ q[1] > q[2]}}      \* -2^k
       \cup {Call("fromi64", None, None, w, 0, <<>>, I64(U1(k))) : <<w, k>> \in {q \in (0..200) \X (0..63) : q[1] \in Into(q[2]) /\ q[1] > q[2]}}
       \cup {Call("fromi64", None, None, w, 0, <<>>, I64(Not(U(k)))) : <<w, k>> \in {q \in (0..200) \X (0..62) : q[1] \in Into(q[2] + 1) /\ q[1] > q[2] + 1}}
       \cup {Call("zero", None, None, w, 0, <<>>, <<>>) : w \in 0..200} \cup {Call("ones", None, None, w, 0, <<>>, <<>>) : w \in 0..200}
Prints == {"bitstr", "hexstr", "decstr", "sbitstr", "shexstr", "dbg"}
C09(z) == Unary(Prints, Samples \cup Vals(4, A5) \cup Vals(62, A4) \cup Vals(60, A4) \cup Vals(126, A3))
       \cup {Un("decstr", Pow(w, k), 0, 0) : <<w, k>> \in {q \in {64, 130} \X (0..129) : q[2] < q[1]}}
       \cup {Un(op, v, 0, 0) : op \in {"sbitstr", "shexstr", "hexstr", "bitstr"}, v \in UNION {{Pow(w, w - 1), AllOnes(w), Lowers(w, w - 1)} : w \in 1..(IF Deep THEN 260 ELSE 135)}}
Chars == {45, 43, 48, 49, 57, 97, 70, 103, 95}           \* - + 0 1 9 a F g _
Texts(n) == UNION {[1..k -> Chars] : k \in 0..n}
Parse(t, x, w) == Call("parse", None, None, x, w, t, <<>>)
Auto(t)    == {Call("frombit", None, None, 0, 0, t, <<>>), Call("fromhex", None, None, 0, 0, t, <<>>)}
(* the numerals of 2^k - 1, 2^k and 2^k + 1 in binary and hexadecimal *)
Numeral(bits, x) == IF x = 2 THEN [i \in 1..Len(bits) |-> 48 + bits[Len(bits) + 1 - i]]
                    ELSE LET n == CeilDiv(Len(bits), 4)
                             p == bits \o Zeros(3)
                             D(v) == IF v < 10 THEN 48 + v ELSE 87 + v
                         IN  [i \in 1..n |-> LET k == 4 * (n - i) IN D(p[k+1] + 2 * p[k+2] + 4 * p[k+3] + 8 * p[k+4])]
Around(k) == {Ones(k), Zeros(k) \o <<1>>, <<1>> \o (IF k = 0 THEN <<>> ELSE Zeros(k - 1) \o <<1>>)} \ {<<>>}
Signs == {<<>>, <<45>>, <<43>>}
Limits(k) == UNION {{Parse(s \o Numeral(b, x), x, w) : s \in Signs, b \in Around(k), x \in {2, 16}} : w \in {k, k + 1}}
C10(z) == {Parse(t, q[1], q[2]) : t \in Texts(2), q \in {2, 10, 16, 36} \X {0, 1, 3, 4, 8, 64, 65}}
       \cup {Parse(t, q[1], q[2]) : t \in [1..3 -> Chars], q \in (IF Deep THEN {2, 8, 10, 16, 36} \X {1, 4, 8, 12, 65} ELSE {<<2, 3>>, <<10, 8>>, <<16, 65>>, <<16, 8>>})}
       \cup UNION {Auto(t) : t \in Texts(3)}
       \cup UNION {Limits(k) : k \in IF Deep THEN 1..200 ELSE {1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 66, 126, 127, 128, 129, 191, 192}}
Mags == UNION {{Flat(<<d>>) : d \in {Lowers(192, k).d, Pow(192, k).d, [Pow(192, k).d EXCEPT ![1] = IF k < 8 /\ k # 0 THEN 2^k + 1 ELSE 1]}} :
               k \in IF Deep THEN 0..191 ELSE {0, 1, 2, 7, 8, 9, 31, 32, 33, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191}}
Digs(w, n) == {Rep(255, n), [k \in 1..n |-> (37 * k) % 256]}
C11(z) == Unary({"tobytes", "tobui", "tobi"}, Samples)
       \cup UNION {{Un(op, v, 0, 0) : op \in {"tobytes", "tobui", "tobi"}, v \in {Pow(w, w - 1), AllOnes(w), Lowers(w, w - 1), Pattern(w)}} : w \in 1..(IF Deep THEN 200 ELSE 73)}
       \cup UNION {{Call("frombytes", None, None, w, 0, <<>>, d) : d \in Digs(w, n)} : <<w, n>> \in {q \in {1, 7, 8, 9, 15, 16, 17, 63, 64, 65, 72, 127, 128, 129} \X (0..24) : q[2] <= 8 * NW(q[1])}}
       \cup {Call("frombui", None, None, w, 0, <<>>, d) : w \in {1, 8, 63, 64, 65, 127, 128, 129, 192}, d \in Mags}
       \cup {Call("frombi", None, None, w, s, <<>>, d) : w \in {1, 8, 63, 64, 65, 127, 128, 129, 192}, d \in Mags, s \in {0, 1}}
       \cup {Call("autobui", None, None, 0, 0, <<>>, d) : d \in Mags}
       \cup {Call("autobi", None, None, 0, s, <<>>, d) : d \in Mags, s \in {0, 1}}
C12(z) == UNION {{Un(op, v, f, 0) : op \in {"ufix", "sfix"}, v \in {Pow(w, w - 1), AllOnes(w), Lowers(w, w - 1), Pattern(w), Num(w, 1)}, f \in {f \in 0..w : Deep \/ f % 3 = w % 3 \/ f < 3}} :
              w \in {1, 2, 8, 31, 32, 33, 52, 53, 54, 63, 64} \cup (IF Deep THEN {3, 16, 24, 48, 60, 61, 62, 65, 128} ELSE {})}
       \cup UNION {{Un(op, v, f, 0) : op \in {"ufix", "sfix"}, v \in {Pow(w, w - 1), AllOnes(w), Lowers(w, 63), Pattern(w), NotOf(Lowers(w, 63)), Lowers(w, 64)}, f \in {0, 1, 31, 32, 62, 63, 64, 65}} : w \in {65, 127, 128, 129}}
(* C01: calls that build vectors, at widths around the word boundaries *)
Ends(w)  == Vals(w, IF NW(w) > 2 THEN {O, M} ELSE {O, X, M})
WC01 == {1, 2, 31, 63, 64, 65, 127, 128, 129} \cup (IF Deep THEN {3, 7, 33, 100, 126, 130, 191, 192, 193, 255, 257} ELSE {191})
C01(z) == UNION {Pairs({"add", "sub", "mul", "and", "or", "xor"}, Ends(w)) \cup Unary({"neg", "not"}, Ends(w)) : w \in WC01}
       \cup UNION {{Bin(op, a, k) : op \in {"shl", "lshr", "ashr"}, a \in {AllOnes(w), Pow(w, w - 1)}, k \in {Num(w, k) : k \in {k \in 0..w : w >= 9 \/ k < 2^w}}} :
              w \in {1, 2, 31, 63, 64, 65, 127, 129} \cup (IF Deep THEN {128, 130, 191, 193, 257} ELSE {})}
       \cup UNION {{Un("slice", AllOnes(w), p[1], p[2]) : p \in {p \in Near(w) \X Near(w) : p[1] >= p[2]}} : w \in {64, 65, 128, 129, 193}}
       \cup UNION {{Un(op, AllOnes(w), by, 0) : op \in {"zext", "sext"}, by \in Exts} : w \in {1, 2, 32, 63, 64, 65, 128, 129}}
       \cup UNION {{Bin("concat", AllOnes(q[1]), AllOnes(q[2]))} : q \in (WC01 \cup {62, 66, 192}) \X (WC01 \cup {62, 66, 192})}
       \cup {Call(op, None, None, w, 0, <<>>, <<>>) : op \in {"zero", "ones"}, w \in 1..(IF Deep THEN 520 ELSE 200)}
       \cup UNION {{Call("frombytes", None, None, w, 0, <<>>, Rep(255, n)) : n \in 0..(8 * NW(w))} : w \in WC01}
       \cup {Call("frombui", None, None, w, 0, <<>>, d) : w \in WC01, d \in {Lowers(192, k).d : k \in {0, 1, 63, 64, 65, 127, 128, 129, 191}}}
       \cup {Call("frombi", None, None, w, s, <<>>, d) : w \in WC01, s \in {0, 1}, d \in {Lowers(192, k).d : k \in {0, 1, 63, 64, 65, 127, 128, 129, 191}} \cup {Pow(192, k).d : k \in {0, 1, 63, 64, 127, 128}}}
       \cup {Call("fromu64", None, None, w, 0, <<>>, Lowers(64, IF w < 64 THEN w ELSE 64).d) : w \in 1..130}
       \cup {Call("fromi64", None, None, w, 0, <<>>, M) : w \in 1..200}
       \cup UNION {Limits(k) : k \in {1, 2, 3, 4, 7, 8, 63, 64, 65, 127, 128}}
       \cup UNION {Auto(t) : t \in Texts(2)}
(* C07: all pairs of each of a few families of easily confused vectors (n: the family) *)
Family(k) == CASE k = 1 -> {Num(w, n) : w \in {1, 2, 3, 64, 65, 128, 129, 192}, n \in {0, 1}}
               [] k = 2 -> Vals(64, A5) \cup Vals(63, {O, I, P}) \cup {V(65, <<ws, O>>) : ws \in A5}
               [] k = 3 -> Vals(128, A3) \cup {V(129, <<x, y, O>>) : x \in {O, I}, y \in {O, I}}
               [] k = 4 -> UNION {{Pow(w, w - 1), AllOnes(w)} : w \in {2, 8, 63, 64, 65, 127, 128, 129}}
               [] k = 5 -> Vals(192, {O, M}) \cup {Pow(128, i) : i \in {0, 1, 63, 64, 127}}
               [] k = 6 -> {Pow(130, i) : i \in Near(130)} \cup {NotOf(Pow(130, i)) : i \in {0, 64, 128, 129}}
               [] k = 7 -> Vals(65, A4) \cup Vals(128, {O, S, P})
               [] k = 8 -> Vals(256, {O, I})
               [] k = 9 -> UNION {Vals(w, {O, M}) : w \in 1..16}
C07(z) == {Call("pair", q[1], q[2], 10 + q[1].w, 0, <<>>, <<>>) : q \in OneWord(65) \cup OneWord(192) \cup OneWord(256)} \cup UNION {{Call("pair", a, b, k, 0, <<>>, <<>>) : a \in Family(k), b \in Family(k)} : k \in 1..(IF Deep THEN 9 ELSE 5)}
Chosen == CASE Prop = "C01" -> C01(0) [] Prop = "C07" -> C07(0)
            [] Prop = "C02" -> C02(0) [] Prop = "C03" -> C03(0) [] Prop = "C04" -> C04(0) [] Prop = "C05" -> C05(0) [] Prop = "C06" -> C06(0)
            [] Prop = "C08" -> C08(0) [] Prop = "C09" -> C09(0) [] Prop = "C10" -> C10(0) [] Prop = "C11" -> C11(0) [] Prop = "C12" -> C12(0)
ASSUME /\ PrintT(<<"CALLS", Cardinality(Chosen)>>)
       /\ ndJsonSerialize("calls.ndjson", SetToSeq(Chosen))
=============================================================================
