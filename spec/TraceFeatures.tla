---------------------------- MODULE TraceFeatures ---------------------------
(* C22.  The same calls made by builds with different optional features of  *)
(* the library.  An event pairs what the build with all features recorded   *)
(* (outcome oa, record a) with what builds with fewer features recorded     *)
(* (of, f); sets: the feature sets of those builds.                         *)
(* A feature adds operations: without it they do not exist, and every       *)
(* other operation is the same with and without it.                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
Ev == ndJsonDeserialize("trace.ndjson")
KF == JsonDeserialize("kf.json")
N  == Len(Ev)
NT == IF N < 64 THEN N ELSE 64
VARIABLES t, l
vars == <<t, l>>

(* the feature an operation comes with *)
Needs(op) == CASE op \in {"tobui", "tobi", "frombui", "frombi", "autobui", "autobi"} -> {"bigint"}
               [] op \in {"ufix", "sfix"} -> {"fraction1"}
               [] op = "serde" -> {"serde1"}
               [] OTHER -> {}
Has(fs, op) == Needs(op) \subseteq {fs[i] : i \in DOMAIN fs}
Conform(e) ==
    \A k \in DOMAIN e.sets : IF Has(e.sets[k], e.op) THEN e.oa = e.of /\ e.a = e.f
                             ELSE e.of = "absent" /\ e.oa # "absent"

Init  == t \in 1..NT /\ l = t
Call  == /\ l <= N
         /\ IF Conform(Ev[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ FALSE
         /\ l' = l + NT /\ t' = t
Done  == l > N /\ UNCHANGED vars
Spec  == Init /\ [][Call \/ Done]_vars
=============================================================================
