----------------------------- MODULE TraceValues ----------------------------
(* Recorded histories of Values.  Every event is followed by a look at all  *)
(* slots: kind, and everything the payload shows.                           *)
EXTENDS Obs, Values
VARIABLES t, l
vars == <<t, l, slots>>
E == Ev[l]
Seen == /\ Len(E.obs) = Len(slots)
        /\ Holds(\A h \in DOMAIN slots : E.obs[h] = slots'[h])
Is(op) == E.op = op /\ E.o = "ok"
Init == /\ t \in 1..Len(Starts) /\ l = Starts[t] + 1
        /\ slots = [h \in 1..Ev[Starts[t]].n |-> None]
Act  == \/ Is("wrap")   /\ WrapUp(E.h, E.kind, E.x)               \* x: what the payload showed before
        \/ Is("clone")  /\ Clone(E.h, E.s)
        \/ Is("modify") /\ Modify(E.h, E.x) /\ E.kind = slots[E.h].kind   \* x: what it shows through the reference
        \/ Is("unwrap") /\ E.ok = 1 /\ Unwrap(E.h, E.kind, E.x)
        \/ Is("unwrap") /\ E.ok = 0 /\ Refuse(E.h, E.kind)
        \/ Is("eq")     /\ Live(E.h) /\ Live(E.s) /\ Read
                        /\ LET q == Equal(E.h, E.s, E.inner = 1)
                           IN  \A k \in DOMAIN E.r : Bool(E.r[k], q)
Step == l <= LastOf(t) /\ l' = l + 1 /\ t' = t /\ Act /\ Seen
Done == l > LastOf(t) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
Short == [t |-> t, l |-> l]          \* what error traces show
=============================================================================
