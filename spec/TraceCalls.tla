----------------------------- MODULE TraceCalls -----------------------------
(* Validates a log of side-effect free calls.  The log is cut into NT       *)
(* independent interleaved chunks (one behaviour each) so that TLC checks   *)
(* them in parallel.  A call that Calls!Conforms does not allow leaves its  *)
(* behaviour without a successor: TLC reports a deadlock at that event.     *)
EXTENDS Calls, TLC, Json
Ev == ndJsonDeserialize("trace.ndjson")
KF == JsonDeserialize("kf.json")
N  == Len(Ev)
NT == IF N < 64 THEN N ELSE 64
VARIABLES t, l
vars == <<t, l>>

(* Documented deviations of the implementation (known_findings.json): a      *)
(* call matches an entry if operation, outcome, radix and the width key do. *)
WKey(e) == CASE e.op = "decstr"  -> BitLen(B(e.a))
             [] e.op = "parse"   -> e.m
             [] OTHER            -> e.a.w
IsKnown(k, e) == /\ k.op = e.op /\ k.o = e.o
                 /\ WKey(e) >= k.wmin
                 /\ \A i \in DOMAIN k.notn : e.n # k.notn[i]
Known(e) == \E i \in DOMAIN KF : IsKnown(KF[i], e) /\ PrintT(<<"KNOWN", KF[i].id>>)

Init  == t \in 1..NT /\ l = t
Call  == /\ l <= N
         /\ LET e == Ev[l] IN
            IF Conforms(e) THEN TRUE ELSE IF Known(e) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ FALSE
         /\ l' = l + NT /\ t' = t
Done  == l > N /\ UNCHANGED vars
Spec  == Init /\ [][Call \/ Done]_vars
=============================================================================
