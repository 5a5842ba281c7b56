----------------------------- MODULE TraceCanon -----------------------------
EXTENDS Obs, Canon
VARIABLES t, l
vars == <<t, l, wd>>
E == Ev[l]

(* What must be seen of every produced vector r: promised width, right      *)
(* number of words, no stray bit, and it is equal to, hashes like and tests *)
(* like a vector built from nothing but its bits.                           *)
SeesItsValue(e) == /\ e.eq = 1 /\ e.hash = 1
                   /\ Bool(e.isz, IsZero(B(e.r)))
Produced(e, w) == IsCanon(e.r, w) /\ SeesItsValue(e)

Init == /\ t \in 1..Len(Starts) /\ l = Starts[t] + 1
        /\ wd = Ev[Starts[t]].wd
Op   == /\ l <= LastOf(t)
        /\ l' = l + 1 /\ t' = t
        /\ \/ /\ E.o = "ok"
              /\ LET w == Promised(E.op, wd[E.s1], wd[E.s2], E.n, E.m, E.t)
                 IN  Produced(E, w) /\ NewWidth(E.dst, w)
           \/ /\ E.o = "err" /\ E.op \in {"parse", "frombit", "fromhex"}   \* nothing is produced
              /\ UNCHANGED wd
           \/ /\ E.o = "err" /\ E.op = "parsein"                     \* target stays well formed
              /\ Produced(E, wd[E.dst]) /\ UNCHANGED wd
Done == l > LastOf(t) /\ UNCHANGED vars
Spec == Init /\ [][Op \/ Done]_vars
Short == [t |-> t, l |-> l]          \* what error traces show
=============================================================================
