----------------------------- MODULE TraceArrays ----------------------------
(* Recorded array histories against Arrays.  Every event is followed by a   *)
(* look at all arrays: type, representation and the values at a pool of     *)
(* indices (all indices for small arrays).                                  *)
(* A property is decided by the events it owns.  An event it does not own   *)
(* may also be followed by Abandon, the end of the session: what happens    *)
(* after an event that breaks another property is of no interest here.      *)
(* own[h]: h comes from an operation this property is about.                 *)
EXTENDS Obs
VARIABLES t, l, arrs, own
A == INSTANCE Arrays
vars == <<t, l, arrs, own>>
E == Ev[l]
Pool == Ev[Starts[t]].pool       \* sequence of index values [w, d]
PoolOf(iw) == SelectSeq(Pool, LAMBDA i : i.w = iw)
Value(w, bits) == [w |-> w, d |-> ToDigits(bits \o Zeros(64 * Words(w) - w))]
ZeroV(w) == [w |-> w, d |-> [k \in 1..(8 * Words(w)) |-> 0]]
IndexV(k, iw) == Value(iw, OfNat(k, iw))

Looks(o, a) ==
    IF a.rep = "none" THEN o.rep = "none"
    ELSE /\ o.rep = a.rep
         /\ o.iw = a.iw /\ o.dw = a.dw
         /\ o.wpe = Words(a.dw)
         /\ a.iw <= 20 => o.ne = 2^a.iw
         /\ LET p == PoolOf(a.iw)
            IN  /\ Len(o.els) = Len(p)
                /\ \A k \in DOMAIN p : o.els[k] = A!At(a, p[k])
Seen == /\ Len(E.obs) = Len(arrs)
        /\ Holds(\A h \in DOMAIN arrs : Looks(E.obs[h], arrs'[h]))

Is(op) == E.op = op /\ E.o = "ok"
KnownEvent == \E i \in DOMAIN KF :
    /\ KF[i].op = E.op /\ KF[i].o = E.o
    /\ "iw" \in DOMAIN E /\ E.iw >= KF[i].wmin /\ E.v.w = 1
    /\ PrintT(<<"KNOWN", KF[i].id>>)

Init == /\ t \in 1..Len(Starts) /\ l = Starts[t] + 1
        /\ arrs = [h \in 1..Ev[Starts[t]].n |-> A!NoArray]
        /\ own = [h \in 1..Ev[Starts[t]].n |-> FALSE]
Act  == \/ Is("new")   /\ A!New(E.h, E.rep, E.iw, E.v.w, E.v)
        \/ Is("slice") /\ A!FromSlice(E.h, E.dw, ZeroV(E.dw), E.vs, IndexV)
        \/ Is("store") /\ E.i.w = arrs[E.h].iw /\ E.v.w = arrs[E.h].dw /\ A!Store(E.h, E.i, E.v)
        \/ Is("select") /\ A!Live(E.h) /\ E.r = A!At(arrs[E.h], E.i) /\ A!Read
        \/ Is("clear") /\ A!Clear(E.h, ZeroV(arrs[E.h].dw))
        \/ E.op \in {"clone", "value", "serde"} /\ E.o = "ok" /\ A!Copy(E.h, E.s)
        \/ Is("dense") /\ A!MakeDense(E.h)
        \/ Is("tobare") /\ A!ToBare(E.h, E.s)
        \/ Is("entries") /\ A!Live(E.h) /\ Holds(A!Shows(arrs[E.h], E.d, E.es)) /\ (\A k \in DOMAIN E.cnt : E.cnt[k] = Len(E.es)) /\ A!Read
        \/ Is("eq")    /\ A!Live(E.h) /\ A!Live(E.s)
                       /\ LET q == A!IsEqual(arrs[E.h], arrs[E.s])
                              want == IF q = <<>> THEN 2 ELSE IF q[1] THEN 1 ELSE 0
                          IN  /\ \A k \in DOMAIN E.r : E.r[k] = want
                              /\ \A k \in DOMAIN E.ops : E.ops[k] = (IF want = 1 THEN 1 ELSE 0)
                       /\ A!Read
        \/ Is("look")  /\ A!Read
        \* the type of an array, of any width
        \/ Is("typ")   /\ E.giw = E.iw /\ E.gdw = E.dw /\ E.wpe = Words(E.dw)
                       /\ \A k \in DOMAIN E.ne : E.ne[k] = (IF k = E.iw \div 8 + 1 THEN 2^(E.iw % 8) ELSE 0)
                       /\ A!Read
        \/ Is("bigdense") /\ E.r = <<E.v, E.x>> /\ A!Read
        \/ E.op = "bigdense" /\ E.o # "ok" /\ KnownEvent /\ A!Read
Conversion == {"dense", "tobare"}
Mine  == CASE E.op = "unguarded" -> TRUE
           [] Prop = "C16" -> E.op \notin Conversion \cup {"entries", "eq", "serde"}
           [] Prop = "C17" -> E.op \in Conversion \cup {"entries"}
           [] Prop = "C18" -> E.op = "eq"
           [] Prop = "C19" -> E.op = "serde"
Derived == \/ "h" \in DOMAIN E /\ E.op \notin {"new", "slice", "clone", "value"} /\ own[E.h]
           \/ "s" \in DOMAIN E /\ own[E.s]
Owned == Mine \/ (Prop \in {"C17", "C19"} /\ Derived)
Tainted == CASE Prop = "C17" -> E.op \in Conversion
             [] Prop = "C19" -> E.op = "serde"
             [] OTHER -> FALSE
NextOwn == IF "h" \notin DOMAIN E \/ E.op \in {"eq", "entries", "select"} THEN own
       ELSE [own EXCEPT ![E.h] = CASE E.op \in {"new", "slice"} -> FALSE
                                   [] E.op \in {"clone", "value", "tobare", "serde"} -> own[E.s] \/ Tainted
                                   [] OTHER -> @ \/ Tainted]
Step == /\ l <= LastOf(t) /\ l' = l + 1 /\ t' = t /\ Act /\ Seen /\ own' = NextOwn
        /\ l = LastOf(t) => PrintT(<<"END", t>>)
Abandon == /\ l <= LastOf(t) /\ ~Owned
           /\ t' = t /\ l' = LastOf(t) + 1 /\ arrs' = <<>> /\ own' = <<>>
Done == l > LastOf(t) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Abandon \/ Done]_vars
Short == [t |-> t, l |-> l]          \* what error traces show
=============================================================================
