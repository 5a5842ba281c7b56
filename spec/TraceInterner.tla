---------------------------- MODULE TraceInterner ---------------------------
EXTENDS Obs, Interner
VARIABLES t, l
vars == <<t, l, tab, blocks>>
E == Ev[l]
Small(v)  == v.w <= 64
IsNum(v, n) == IF v.w = 1 THEN n < 2 /\ v.d[1] = n /\ \A i \in 2..Len(v.d) : v.d[i] = 0
               ELSE v.d[1] = n /\ \A i \in 2..Len(v.d) : v.d[i] = 0
KFor(op, v) == \E i \in DOMAIN KF : KF[i].op = op /\ v.w >= KF[i].wmin /\ PrintT(<<"KNOWN", KF[i].id>>)
(* is_zero / is_one answer for the index of v *)
Answers(v) == /\ IF Bool(E.iz, IsNum(v, 0)) THEN TRUE ELSE E.iz = 0 /\ KFor("interner.is_zero", v)
              /\ IF Bool(E.io, IsNum(v, 1)) THEN TRUE ELSE E.io = 0 /\ KFor("interner.is_one", v)
(* the index is a record [i, w]; its width is that of the value, and the    *)
(* value can be read back through it at once                                *)
Init == t \in 1..Len(Starts) /\ l = Starts[t] + 1 /\ tab = <<>> /\ blocks = <<>>
Act  == E.o = "ok" /\
        \/ E.op = "intern" /\ E.ix.w = E.v.w /\ E.back = E.v /\ Intern(E.v, E.ix) /\ Answers(E.v)
        \/ E.op = "read" /\ Read(E.ix, E.v)
        \/ E.op = "bulk" /\ Holds(Len(E.ixs) = Len(E.backs) /\ \A k \in DOMAIN E.backs : E.backs[k] = E.lo + k - 1)
              /\ Holds(\A k \in DOMAIN E.ws : E.ws[k] = E.w)
              /\ InternRange([w |-> E.w, lo |-> E.lo, ixs |-> E.ixs])
        \/ E.op = "readall" /\ UNCHANGED <<tab, blocks>>
              /\ {E.vs[k] : k \in DOMAIN E.vs} = DOMAIN tab
              /\ \A k \in DOMAIN E.vs : tab[E.vs[k]] = E.ixs[k]
Step == l <= LastOf(t) /\ l' = l + 1 /\ t' = t /\ Act
Done == l > LastOf(t) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
Short == [t |-> t, l |-> l]          \* what error traces show
TypeOK == Injective
=============================================================================
