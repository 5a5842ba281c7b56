--------------------------------- MODULE Regs -------------------------------
(* C13.  In-place mutation of bit-vectors.  A register holds a vector; each *)
(* action changes its target only.                                          *)
EXTENDS Integers, Sequences, Bits
VARIABLE regs                   \* register -> bit sequence

Set(d, x)        == regs' = [regs EXCEPT ![d] = x]
W(d)             == Len(regs[d])

Assign(d, s)     == W(d) = W(s) /\ Set(d, regs[s])
AssignValue(d, x) == Len(x) = W(d) /\ Set(d, x)
AssignOnes(d)    == Set(d, Ones(W(d)))
Clear(d)         == Set(d, Zeros(W(d)))
SetOne(d, i)     == i < W(d) /\ Set(d, SetBit(regs[d], i))
ClearOne(d, i)   == i < W(d) /\ Set(d, ClearBit(regs[d], i))
AssignU64(d, n)  == UFits(n, W(d)) /\ Set(d, Resize(n, W(d)))      \* n: 64 bits
AssignI64(d, n)  == (W(d) >= 64 \/ SFits(n, W(d))) /\ Set(d, SResize(n, W(d)))
MaskMsb(d)       == UNCHANGED regs                 \* a no-op on canonical vectors
Replace(d, x)    == Set(d, x)                       \* d = some other vector (clone, new value)
Scramble(d, x)   == Len(x) = W(d) /\ Set(d, x)      \* what a failed parse may leave
=============================================================================
