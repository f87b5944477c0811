------------------------------ MODULE KVTrace -------------------------------
(* Is every recorded history of the real stores a behaviour of KV?         *)
(* One initial state per recorded trace; every event must be explained by  *)
(* the action of its name with the recorded arguments and results.  An     *)
(* event that no action explains ends the behaviour before the trace does:   *)
(* TLC does not report the trace as explained.                              *)
EXTENDS KVSteps, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l
tvars == <<vars, tr, l>>

TInit == tr \in DOMAIN Traces /\ InitIn(Traces[tr].mode) /\ l = 1

TNext == \/ l <= Len(Traces[tr].ev) /\ KVStep(Traces[tr].ev[l]) /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars

=============================================================================
