------------------------------- MODULE MCSlab -------------------------------
(* The design of split_borrow_1/2 (indexed.rs) against Slab: splitting the  *)
(* store around the destination and moving source ranges reaches exactly    *)
(* the addressed words, and fails exactly for overlapping requests.         *)
EXTENDS Slab, FiniteSets
CONSTANTS N, Values
Idx == {x \in [i : 0..(N - 1), w : {1, 64, 65, 128, 129}] : x.i + WordsOf(x.w) <= N}

(* --- split_borrow_1 as written: half open ranges [s, e) over 0-based words *)
Fail == <<"panic">>
SubRange(seq, s, e) == IF s <= e /\ e <= Len(seq) /\ s >= 0 THEN SubSeq(seq, s + 1, e) ELSE Fail
Split(d, s) ==
    LET before == SubSeq(mem, 1, d.i)
        after0 == SubSeq(mem, d.i + 1, Len(mem))
        n == WordsOf(d.w)
        dst   == SubSeq(after0, 1, n)
        after == SubSeq(after0, n + 1, Len(after0))
        off   == d.i + n
        src   == IF s.i >= off THEN SubRange(after, s.i - off, s.i + WordsOf(s.w) - off)
                 ELSE SubRange(before, s.i, s.i + WordsOf(s.w))
    IN  <<dst, src>>

Init == mem \in [1..N -> Values]
Next == \/ \E x \in Idx : Read(x)
        \/ \E x, a \in Idx, v \in Values : Write(x, <<a>>, [k \in 1..WordsOf(x.w) |-> v]) \/ Refuse(x, <<a>>)
Spec == Init /\ [][Next]_mem
SplitExact == \A d, s \in Idx :
    IF Overlap(d, s) THEN Split(d, s)[2] = Fail
    ELSE Split(d, s) = <<At(d), At(s)>>
=============================================================================
