----------------------------- MODULE TraceTables ----------------------------
(* Histories of large arrays against Tables.  Every event is followed by a  *)
(* look at all elements of the arrays it says it looked at.                 *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json
(* see TraceArrays for own and Abandon *)
Prop == JsonDeserialize("prop.json").prop
Ev == ndJsonDeserialize("trace.ndjson")
N  == Len(Ev)
Starts == SetToSortSeq({i \in 1..N : Ev[i].op = "reset"}, <)
LastOf(t) == IF t = Len(Starts) THEN N ELSE Starts[t + 1] - 1
VARIABLES t, l, tabs, own
T == INSTANCE Tables
vars == <<t, l, tabs, own>>
E == Ev[l]
(* TLC evaluates p as one expression, not as a conjunction of actions *)
Holds(p) == p = TRUE
Looks(o, a) ==
    CASE o.rep = "skip" -> TRUE
      [] o.rep = "none" -> a.rep = "none"
      [] OTHER -> o.rep = a.rep /\ o.iw = a.iw /\ o.dw = a.dw /\ o.ne = 2^a.iw /\ T!Covered(a.f, o.runs)
Seen == Len(E.obs) = Len(tabs) /\ Holds(\A h \in DOMAIN tabs : Looks(E.obs[h], tabs'[h]))
Is(op) == E.op = op /\ E.o = "ok"
Init == /\ t \in 1..Len(Starts) /\ l = Starts[t] + 1
        /\ tabs = [h \in 1..Ev[Starts[t]].n |-> T!NoTable]
        /\ own = [h \in 1..Ev[Starts[t]].n |-> FALSE]
Act  == \/ Is("new")   /\ T!New(E.h, E.rep, E.iw, E.dw, E.v)
        \/ Is("slice") /\ T!FromSlice(E.h, E.dw, E.n, E.p)
        \/ Is("store") /\ T!Store(E.h, E.i, E.v)
        \/ Is("fill")  /\ T!Fill(E.h, E.from, E.n, E.step, E.p)
        \/ Is("clear") /\ T!Clear(E.h)
        \/ E.op \in {"clone", "serde"} /\ E.o = "ok" /\ T!Copy(E.h, E.s)
        \/ Is("dense") /\ T!MakeDense(E.h)
        \/ Is("tobare") /\ T!ToBare(E.h, E.s)
        \/ Is("entries") /\ T!Live(E.h) /\ Holds(T!Shows(tabs[E.h].f, E.d, E.runs)) /\ (\A k \in DOMAIN E.cnt : E.cnt[k] = T!Listed(E.runs)) /\ T!Read
        \/ Is("eq")    /\ T!Live(E.h) /\ T!Live(E.s)
                       /\ LET q == T!IsEqual(tabs[E.h], tabs[E.s])
                              want == IF q = <<>> THEN 2 ELSE IF q[1] THEN 1 ELSE 0
                          IN  /\ \A k \in DOMAIN E.r : E.r[k] = want
                              /\ \A k \in DOMAIN E.ops : E.ops[k] = (IF want = 1 THEN 1 ELSE 0)
                       /\ T!Read
        \/ Is("look")  /\ T!Read
Conversion == {"dense", "tobare"}
Mine  == CASE E.op = "unguarded" -> TRUE
           [] Prop = "C16" -> E.op \notin Conversion \cup {"entries", "eq", "serde"}
           [] Prop = "C17" -> E.op \in Conversion \cup {"entries"}
           [] Prop = "C18" -> E.op = "eq"
           [] Prop = "C19" -> E.op = "serde"
Derived == \/ "h" \in DOMAIN E /\ E.op \notin {"new", "slice", "clone"} /\ own[E.h]
           \/ "s" \in DOMAIN E /\ own[E.s]
           \/ E.op = "look" /\ \E h \in DOMAIN own : own[h]
Owned == Mine \/ (Prop \in {"C17", "C19"} /\ Derived)
Tainted == CASE Prop = "C17" -> E.op \in Conversion
             [] Prop = "C19" -> E.op = "serde"
             [] OTHER -> FALSE
NextOwn == IF "h" \notin DOMAIN E \/ E.op \in {"eq", "entries"} THEN own
       ELSE [own EXCEPT ![E.h] = CASE E.op \in {"new", "slice"} -> FALSE
                                   [] E.op \in {"clone", "tobare", "serde"} -> own[E.s] \/ Tainted
                                   [] OTHER -> @ \/ Tainted]
Step == /\ l <= LastOf(t) /\ l' = l + 1 /\ t' = t /\ Act /\ Seen /\ own' = NextOwn
        /\ l = LastOf(t) => PrintT(<<"END", t>>)
Abandon == /\ l <= LastOf(t) /\ ~Owned
           /\ t' = t /\ l' = LastOf(t) + 1 /\ tabs' = <<>> /\ own' = <<>>
Done == l > LastOf(t) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Abandon \/ Done]_vars
Short == [t |-> t, l |-> l]          \* what error traces show
=============================================================================
