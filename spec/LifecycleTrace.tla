--------------------------- MODULE LifecycleTrace ---------------------------
(* Is every recorded history of opening, using and closing real stores a   *)
(* behaviour of Lifecycle?  See KVTrace.                                   *)
EXTENDS Lifecycle, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l
tvars == <<lvars, tr, l>>

TInit == tr \in DOMAIN Traces /\ LInit(Traces[tr].mode) /\ l = 1

Step(E) ==
  CASE E.op = "open" -> Open(E.o, E.ok)
    [] E.op = "close" -> Close(E.ok)
    [] E.op = "block" -> Block(E.p)
    [] E.op = "unblock" -> Unblock(E.p)
    [] E.op = "reader" /\ ~ E.ok -> ClosedReader(E.ok) \/ NoBucketReader(E.ok)
    [] E.op = "compact" /\ mode # "rw" -> IdleCompact(E.ok)
    [] OTHER -> OnStore(E)

TNext == \/ l <= Len(Traces[tr].ev) /\ Step(Traces[tr].ev[l]) /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
