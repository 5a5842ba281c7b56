--------------------------------- MODULE Obs --------------------------------
(* Observations: how logged values relate to specification values, and the  *)
(* skeleton shared by the stateful trace specifications.  A log consists of *)
(* sessions; the first event of a session has op = "reset".                 *)
EXTENDS Calls, TLC, Json
Ev == ndJsonDeserialize("trace.ndjson")
KF == JsonDeserialize("kf.json")
Prop == JsonDeserialize("prop.json").prop       \* the property being decided
N  == Len(Ev)
ResetSet == {i \in 1..N : Ev[i].op = "reset"}
Starts == SetToSortSeq(ResetSet, <)
(* TLC evaluates p as one expression, not as a conjunction of actions *)
Holds(p) == p = TRUE
LastOf(t) == IF t = Len(Starts) THEN N ELSE Starts[t + 1] - 1
=============================================================================
