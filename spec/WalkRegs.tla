------------------------------ MODULE WalkRegs ------------------------------
(* All behaviours of the register machine over abstract vectors, printed    *)
(* for replay.  A cell of an abstract vector is a group of bit positions:   *)
(* cells 0..K-1 stand for one position each, cell K for all the others; the *)
(* harness chooses widths and positions, so that one walk is performed at   *)
(* one word, at a word boundary and over several words.                     *)
EXTENDS Regs, TLC, Json
CONSTANTS K, Emit
R == 1..2
Vec == {OfNat(n, K + 1) : n \in 0..(2^(K + 1) - 1)}
VARIABLE op                      \* label of the last step (not part of the view)
O(name, d, s, i, v) == [op |-> name, d |-> d, s |-> s, i |-> i, v |-> v]
Lbl(o) == op' = o
None == Zeros(K + 1)
Init == regs = [r \in R |-> None] /\ op = O("init", 0, 0, 0, None)
InPlace(d) ==
    \/ Assign(d, 3 - d) /\ Lbl(O("assign", d, 3 - d, 0, None))
    \/ \E x \in Vec : /\ AssignValue(d, x)
                      /\ \E route \in {"assignv", "setu64", "seti64", "parse"} : Lbl(O(route, d, 0, 0, x))
    \/ AssignOnes(d) /\ Lbl(O("ones", d, 0, 0, None))
    \/ Clear(d)      /\ Lbl(O("clear", d, 0, 0, None))
    \/ MaskMsb(d)    /\ Lbl(O("mask", d, 0, 0, None))
    \/ \E i \in 0..(K - 1) : \/ SetOne(d, i)   /\ Lbl(O("setbit", d, 0, i, None))
                             \/ ClearOne(d, i) /\ Lbl(O("clearbit", d, 0, i, None))
Next == \E d \in R : InPlace(d) \/ (Replace(d, regs[3 - d]) /\ Lbl(O("clone", d, 3 - d, 0, None)))
Spec == Init /\ [][Next]_<<regs, op>>
View == regs
OnlyTarget == [][\A r \in R : r # op'.d => regs'[r] = regs[r]]_<<regs, op>>
Reads      == [][op'.op \in {"assignv", "setu64", "seti64", "parse"} => regs'[op'.d] = op'.v]_<<regs, op>>
EmitStep == Emit => PrintT("EDGE " \o ToJson([s |-> regs, o |-> op', t |-> regs']))
=============================================================================
