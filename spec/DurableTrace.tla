---------------------------- MODULE DurableTrace ----------------------------
(* Is every recorded history with its crashes a behaviour of Durable?      *)
EXTENDS Durable, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l
tvars == <<dvars, tr, l>>

TInit == tr \in DOMAIN Traces /\ l = 1 /\ DInit

Step(E) ==
  CASE E.op = "created" -> Created
    [] E.op = "call" -> Call(E.ops)
    [] E.op = "ret" -> Return(E.ok)
    [] E.op = "reopened" -> Reopened
    [] E.op = "crash" -> Crash(E.ok, E.kv, E.used, E.ops, E.kv2) \/ FindingTornValueLog(E.ok, E.kv, E.vlog)
    [] E.op = "crash2" -> Crash2(E.stage, E.kv, E.ops, E.ok, E.kv2)
    [] OTHER -> FALSE

TNext == \/ l <= Len(Traces[tr].ev) /\ Step(Traces[tr].ev[l]) /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
