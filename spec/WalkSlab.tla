------------------------------ MODULE WalkSlab ------------------------------
(* All accesses to a store of N words, each holding one of two values, in   *)
(* every state: which index is written, which are read along with it, what  *)
(* is written.  An abstract word stands for a block of Unit real words; the *)
(* harness chooses widths that end inside the last word of a block.         *)
EXTENDS Slab, TLC, Json, FiniteSets
CONSTANTS N, Emit
Idx == {x \in [i : 0..(N - 1), w : {64 * k : k \in 1..N}] : x.i + WordsOf(x.w) <= N}
Srcs == {<<>>} \cup {<<a>> : a \in Idx} \cup {<<a, b>> : a \in Idx, b \in Idx}
VARIABLE op
O(name, x, srcs, how, v) == [op |-> name, x |-> x, srcs |-> srcs, do |-> how, v |-> v]
Init == mem = [k \in 1..N |-> 0] /\ op = O("init", [i |-> 0, w |-> 64], <<>>, "none", <<>>)
Next ==
    \/ \E a, b \in Idx : Read(a) /\ op' = O("read", a, <<a, b>>, "none", <<>>)
    \/ \E x \in Idx, srcs \in Srcs :
        IF ~Allowed(x, srcs) THEN Refuse(x, srcs) /\ op' = O("write", x, srcs, "none", <<>>)
        ELSE \/ Write(x, srcs, At(x)) /\ op' = O("write", x, srcs, "none", <<>>)
             \/ Len(srcs) < 2 /\ \E v \in [1..WordsOf(x.w) -> {0, 1}] : Write(x, srcs, v) /\ op' = O("write", x, srcs, "value", v)
             \/ \E k \in DOMAIN srcs : srcs[k].w = x.w /\ Write(x, srcs, At(srcs[k])) /\ op' = O("write", x, srcs, IF k = 1 THEN "copy1" ELSE "copy2", <<>>)
Spec == Init /\ [][Next]_<<mem, op>>
View == mem
OnlyAddressed == [][\A k \in 1..N : mem'[k] # mem[k] => op'.op = "write" /\ k \in Range(op'.x)]_<<mem, op>>
SourcesKept   == [][\A k \in DOMAIN op'.srcs : op'.op = "write" /\ Allowed(op'.x, op'.srcs) =>
                        \A q \in Range(op'.srcs[k]) : mem'[q] = mem[q]]_<<mem, op>>
EmitStep == Emit => PrintT("EDGE " \o ToJson([s |-> mem, o |-> op', t |-> mem']))
=============================================================================
