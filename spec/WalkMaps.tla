------------------------------ MODULE WalkMaps ------------------------------
(* Maps keyed by vectors: every operation in every state of a map with N    *)
(* possible keys.  The harness chooses the keys so that they are easily     *)
(* confused (same number at different widths, one bit apart, ...).          *)
EXTENDS Coherence, TLC, Json
CONSTANTS N, Emit
VARIABLE op
O(name, k, n) == [op |-> name, k |-> k, n |-> n]
Init == ord = {} /\ map = <<>> /\ op = O("init", 0, 0)
Next == \E k \in 1..N :
          \/ \E n \in 1..2 : Put(k, n) /\ op' = O("put", k, n)
          \/ Drop(k) /\ op' = O("drop", k, 0)
          \/ UNCHANGED <<ord, map>> /\ op' = O("get", k, 0)
          \/ k = 1 /\ UNCHANGED <<ord, map>> /\ op' = O("size", k, 0)
Spec == Init /\ [][Next]_<<ord, map, op>>
View == map
OneKey == [][\A k \in 1..N : k # op'.k => (k \in DOMAIN map <=> k \in DOMAIN map') /\ (k \in DOMAIN map => map'[k] = map[k])]_<<map, op>>
EmitStep == Emit => PrintT("EDGE " \o ToJson([s |-> [k \in 1..N |-> Get(k)], o |-> op', t |-> [k \in 1..N |-> IF k \in DOMAIN map' THEN map'[k] ELSE None]]))
=============================================================================
