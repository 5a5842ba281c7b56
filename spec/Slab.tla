--------------------------------- MODULE Slab -------------------------------
(* C14.  A word store with indexed access.  A word is a sequence of 8 bytes;*)
(* an index is [i, w]: first word and width of the vector stored there.     *)
EXTENDS Integers, Sequences
VARIABLE mem
WordsOf(w)   == (w + 63) \div 64
First(x)     == x.i + 1
Last(x)      == x.i + WordsOf(x.w)
Range(x)     == First(x)..Last(x)
InBounds(x)  == Last(x) <= Len(mem)
Overlap(x, y) == Range(x) \cap Range(y) # {}
At(x)        == [k \in 1..WordsOf(x.w) |-> mem[x.i + k]]

(* reading never changes the store *)
Read(x)      == InBounds(x) /\ UNCHANGED mem
(* a mutable access to x, together with reads of the indices in srcs,       *)
(* replaces the words of x by ws; it is possible only if x meets none of    *)
(* the sources                                                              *)
Allowed(x, srcs) == \A k \in DOMAIN srcs : ~Overlap(x, srcs[k])
Write(x, srcs, ws) ==
    /\ InBounds(x) /\ Allowed(x, srcs) /\ Len(ws) = WordsOf(x.w)
    /\ mem' = [k \in DOMAIN mem |-> IF k \in Range(x) THEN ws[k - x.i] ELSE mem[k]]
Refuse(x, srcs) == ~Allowed(x, srcs) /\ UNCHANGED mem
=============================================================================
