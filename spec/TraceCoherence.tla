--------------------------- MODULE TraceCoherence ---------------------------
EXTENDS Obs, Coherence
VARIABLES t, l
vars == <<t, l, ord, map>>
E == Ev[l]
Is(op) == E.op = op /\ E.o = "ok"

(* every pairing of owned, borrowed and mutable forms gives the same answer *)
PairEq == LET s == Same(E.a, E.b)
          IN  /\ \A i \in DOMAIN E.eq : Bool(E.eq[i], s)
              /\ \A i \in DOMAIN E.ne : Bool(E.ne[i], ~s)
              \* hashes: owned and borrowed form of one value agree; equal values agree
              /\ \A i \in DOMAIN E.hs : E.hs[i][1] = E.hs[i][2]
              /\ s => E.ha = E.hb
Init == /\ t \in 1..Len(Starts) /\ l = Starts[t] + 1 /\ ord = {} /\ map = <<>>
Act ==  \/ Is("pair") /\ PairEq /\ Compare(E.a, E.b, E.c) /\ E.cr = -E.c /\ E.pc = E.c
        \/ Is("put")  /\ E.r = Get(E.a) /\ Put(E.a, E.n)
        \/ Is("get")  /\ E.r = Get(E.a) /\ UNCHANGED <<ord, map>>
        \/ Is("drop") /\ E.r = Get(E.a) /\ Drop(E.a)
        \/ Is("size") /\ E.r = Size /\ UNCHANGED <<ord, map>>
        \/ Is("sort") /\ UNCHANGED map     \* a sorted list: equal neighbours are equal, order is total
                      /\ \A i \in 1..(Len(E.vs) - 1) : <<E.vs[i+1], E.vs[i]>> \notin ord
                      /\ Len(E.us) = Len(E.vs)
                      /\ \A x \in Range(E.us) \cup Range(E.vs) :
                           Cardinality({j \in DOMAIN E.us : E.us[j] = x}) = Cardinality({j \in DOMAIN E.vs : E.vs[j] = x})
                      /\ UNCHANGED ord
        \* documented deviations (known_findings.json)
        \/ /\ E.o # "ok" /\ UNCHANGED <<ord, map>>
           /\ \E i \in DOMAIN KF : KF[i].op = E.op /\ KF[i].o = E.o /\ PrintT(<<"KNOWN", KF[i].id>>)
Step == l <= LastOf(t) /\ l' = l + 1 /\ t' = t /\ Act
Done == l > LastOf(t) /\ UNCHANGED vars
Spec == Init /\ [][Step \/ Done]_vars
Short == [t |-> t, l |-> l]          \* what error traces show
=============================================================================
