------------------------------- MODULE MCRegs -------------------------------
(* Exhaustive exploration of the register machine for two registers of      *)
(* width up to MaxW: in-place actions keep the width of their target and    *)
(* touch no other register.                                                 *)
EXTENDS Regs
CONSTANT MaxW
VARIABLE last                    \* <<target, in place?>>
R == 1..2
Vec(w) == {OfNat(n, w) : n \in 0..(2^w - 1)}
AllVec == UNION {Vec(w) : w \in 1..MaxW}
N64 == {Resize(x, 64) : x \in AllVec} \cup {SResize(x, 64) : x \in AllVec}
Init == regs \in [R -> AllVec] /\ last = <<0, FALSE>>
InPlace(d) == \/ \E s \in R : Assign(d, s)
              \/ \E x \in AllVec : AssignValue(d, x) \/ Scramble(d, x)
              \/ AssignOnes(d) \/ Clear(d) \/ MaskMsb(d)
              \/ \E i \in 0..(MaxW - 1) : SetOne(d, i) \/ ClearOne(d, i)
              \/ \E n \in N64 : AssignU64(d, n) \/ AssignI64(d, n)
Next == \E d \in R : \/ InPlace(d) /\ last' = <<d, TRUE>>
                     \/ (\E s \in R : Replace(d, regs[s])) /\ last' = <<d, FALSE>>
Spec == Init /\ [][Next]_<<regs, last>>
TypeOK == \A r \in R : regs[r] \in AllVec
OnlyTarget == [][\A r \in R : r # last'[1] => regs'[r] = regs[r]]_<<regs, last>>
KeepsWidth == [][\A r \in R : last'[2] => Len(regs'[r]) = Len(regs[r])]_<<regs, last>>
=============================================================================
