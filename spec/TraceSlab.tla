------------------------------ MODULE TraceSlab -----------------------------
EXTENDS Obs
VARIABLES t, l, mem
S == INSTANCE Slab
vars == <<t, l, mem>>
E == Ev[l]
Chunk(d) == [k \in 1..(Len(d) \div 8) |-> SubSeq(d, 8*k - 7, 8*k)]
Flat(ws) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ws)
(* the value an access showed: width and raw words *)
Shown(v, x, m) == v.w = x.w /\ v.d = Flat([k \in 1..S!WordsOf(x.w) |-> m[x.i + k]])
ReadsOK == /\ Len(E.got) = Len(E.srcs)
           /\ \A k \in DOMAIN E.srcs : Shown(E.got[k], E.srcs[k], mem)
Bits64(x, n) == x \o Zeros(64 * S!WordsOf(n) - n)
ToWords(bits) == Chunk(ToDigits(bits))
(* what the caller did through the mutable reference *)
Written(x) == CASE E.do = "value" -> Chunk(E.v.d)
                [] E.do = "copy1" -> S!At(E.srcs[1])
                [] E.do = "copy2" -> S!At(E.srcs[2])
                \* what these make of the value is C13's business; the store has to hold what the view shows
                [] E.do \in {"ones", "clear", "setbit"} -> Chunk(E.new.d)
                [] E.do = "none"  -> S!At(x)
Init == /\ t \in 1..Len(Starts) /\ l = Starts[t] + 1 /\ mem = Chunk(Ev[Starts[t]].mem)
Act  == \/ E.op = "read" /\ E.o = "ok" /\ S!Read(E.srcs[1]) /\ ReadsOK
        \/ E.op = "write" /\ E.o = "ok" /\ ReadsOK
           /\ Shown(E.old, E.x, mem)
           /\ S!Write(E.x, E.srcs, Written(E.x)) /\ Shown(E.new, E.x, mem')
        \/ E.op = "write" /\ E.o = "panic" /\ S!Refuse(E.x, E.srcs)
Step == l <= LastOf(t) /\ l' = l + 1 /\ t' = t /\ Act /\ mem' = Chunk(E.mem) /\ E.pad = 1
Done == l > LastOf(t) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
Short == [t |-> t, l |-> l]          \* what error traces show
=============================================================================
