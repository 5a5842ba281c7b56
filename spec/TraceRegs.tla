------------------------------ MODULE TraceRegs -----------------------------
(* Recorded mutation histories against Regs: after every call all registers *)
(* (and all words of the store that hold none) are logged.                  *)
EXTENDS Obs, Regs
VARIABLES t, l, pad, own            \* own: see TraceArrays
vars == <<t, l, regs, pad, own>>
E == Ev[l]
R0 == Ev[Starts[t]]

Seen     == /\ Len(E.regs) = Len(regs)
            /\ Holds(\A i \in DOMAIN E.regs : RIs(E.regs[i], regs'[i]))
            /\ pad' = pad /\ E.pad = pad
Is(op)   == E.op = op /\ E.o = "ok"
P        == ParseSpec(E.t, E.n, W(E.dst))
Canonical(v, w) == IsCanon(v, w)

Init == /\ t \in 1..Len(Starts) /\ l = Starts[t] + 1
        /\ regs = [i \in DOMAIN Ev[Starts[t]].regs |-> B(Ev[Starts[t]].regs[i])]
        /\ pad = Ev[Starts[t]].pad
        /\ own = [i \in DOMAIN Ev[Starts[t]].regs |-> FALSE]
Act  == \/ Is("assign")   /\ Assign(E.dst, E.s)
        \/ Is("assignv")  /\ AssignValue(E.dst, B(E.v))
        \/ Is("ones")     /\ AssignOnes(E.dst)
        \/ Is("clear")    /\ Clear(E.dst)
        \/ Is("setbit")   /\ SetOne(E.dst, E.n)
        \/ Is("clearbit") /\ ClearOne(E.dst, E.n)
        \/ Is("setu64")   /\ AssignU64(E.dst, N64(E.x))
        \/ Is("seti64")   /\ AssignI64(E.dst, N64(E.x))
        \/ Is("mask")     /\ MaskMsb(E.dst)
        \/ Is("clone")    /\ Replace(E.dst, regs[E.s])
        \/ Is("serde")    /\ Replace(E.dst, regs[E.s])
        \/ Is("new")      /\ Replace(E.dst, B(E.v))
        \/ Is("noop")     /\ UNCHANGED regs
        \/ Is("parse")    /\ \/ E.k = "ok" /\ P.ok /\ AssignValue(E.dst, P.v)
                             \/ /\ \/ E.k = "ExceedsWidth" /\ P.exc
                                   \/ E.k = "InvalidDigit" /\ P.inv
                                /\ Canonical(E.regs[E.dst], W(E.dst))
                                /\ Scramble(E.dst, B(E.regs[E.dst]))
Owned == \/ Prop = "C13" \/ E.op \in {"serde", "unguarded"}
         \/ E.op # "new" /\ own[E.dst]
         \/ E.op \in {"assign", "clone"} /\ own[E.s]
NextOwn == [own EXCEPT ![E.dst] = CASE E.op = "serde" -> TRUE
                                    [] E.op \in {"new", "assignv"} -> FALSE
                                    [] E.op \in {"assign", "clone"} -> own[E.s]
                                    [] OTHER -> @]
Step == /\ l <= LastOf(t) /\ l' = l + 1 /\ t' = t /\ Act /\ Seen /\ own' = NextOwn
        /\ l = LastOf(t) => PrintT(<<"END", t>>)
Abandon == /\ l <= LastOf(t) /\ ~Owned
           /\ t' = t /\ l' = LastOf(t) + 1 /\ regs' = <<>> /\ pad' = <<>> /\ own' = <<>>
Done == l > LastOf(t) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Abandon \/ Done]_vars
Short == [t |-> t, l |-> l]          \* what error traces show
=============================================================================
