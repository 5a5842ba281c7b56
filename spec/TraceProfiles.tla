---------------------------- MODULE TraceProfiles ---------------------------
(* C20.  The same calls made by a debug and by a release build.  An event   *)
(* pairs the two records of a call: od / orr outcomes, d / r the complete   *)
(* records as text.  Within the contract both are equal and nothing panics; *)
(* a contract violation (op "x....") has its own rule.                      *)
EXTENDS Calls, TLC, Json
Ev == ndJsonDeserialize("trace.ndjson")
KF == JsonDeserialize("kf.json")
N  == Len(Ev)
NT == IF N < 64 THEN N ELSE 64
VARIABLES t, l
vars == <<t, l>>

(* refusals that are part of a contract in both profiles: overlapping       *)
(* destination and source in a word store (whether it has to be refused is  *)
(* decided by Slab)                                                         *)
Refusal(e) == e.op = "write" /\ e.od = "panic"
Within(e)  == e.orr = e.od /\ e.d = e.r /\ (e.od \in {"ok", "reset", "err"} \/ Refusal(e))

(* an integer that may not fit the width *)
IntCall(e) ==
    LET x == N64(e.x.d)
        w == e.x.n
        signed == e.op = "x.fromi64"
        fits == IF signed THEN w >= 64 \/ SFits(x, w) ELSE UFits(x, w)
        want == IF signed THEN SResize(x, w) ELSE Resize(x, w)
    IN  /\ e.orr = "ok" /\ RIs(e.rres, want)
        /\ IF fits THEN e.od = "ok" /\ RIs(e.dres, want) ELSE e.od = "panic"
(* a dense array: more than 1 GiB is refused in debug (all numbers here fit TLC's integers) *)
DenseCall(e) ==
    LET dw == e.x.dw
        iw == e.x.iw
        per == IF dw <= 8 THEN 1 ELSE IF dw <= 64 THEN 8 ELSE 8 * ((dw + 63) \div 64)
        fits == IF dw = 1 THEN iw <= 33 ELSE iw <= 30 /\ per <= 2^(30 - iw)
    IN  IF fits THEN e.od = "ok" /\ e.orr = "ok" ELSE e.od = "panic" /\ e.orr = "skip"
Violation(e) == IF e.op = "x.dense" THEN DenseCall(e) ELSE IF e.op \in {"x.fromu64", "x.fromi64"} THEN IntCall(e)
                ELSE e.od = "panic" /\ e.orr \in {"skip", "panic"}
Conform(e)   == IF e.bad = 1 THEN Violation(e) ELSE Within(e)
Known(e) == e.bad = 0 /\ e.d = e.r /\ e.od = e.orr /\
            \E i \in DOMAIN KF : KF[i].op = e.op /\ KF[i].o = e.od /\ PrintT(<<"KNOWN", KF[i].id>>)

Init  == t \in 1..NT /\ l = t
Call  == /\ l <= N
         /\ IF Conform(Ev[l]) THEN TRUE ELSE IF Known(Ev[l]) THEN TRUE ELSE PrintT(<<"REJECT", l>>) /\ FALSE
         /\ l' = l + NT /\ t' = t
Done  == l > N /\ UNCHANGED vars
Spec  == Init /\ [][Call \/ Done]_vars
=============================================================================
