----------------------------- MODULE ConcTrace ------------------------------
(* Is every recorded concurrent history of a real store linearizable?      *)
EXTENDS Conc, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)

VARIABLES tr, l
tvars == <<cvars, tr, l>>

TInit == /\ tr \in DOMAIN Traces /\ l = 1
         /\ CInit(IF Traces[tr].mode = "badger" THEN "optimistic" ELSE "lock", 9)

Step(E) ==
  CASE E.op = "call" -> CallBatch(E.t, E.ops, E.ok)
    [] E.op = "ret" -> RetBatch(E.t, E.ok, E.ops)
    [] E.op = "rcall" -> CallReader(E.t, E.kv)
    [] E.op = "rret" -> RetReader(E.t, E.ok)
    [] E.op = "rscan" -> ReaderScan(E.t, E.kv)
    [] E.op = "rget" -> ReaderGet(E.t, E.k, E.v)
    [] E.op = "rend" -> EndReader(E.t)
    [] E.op = "ccall" -> CallCompact(E.t)
    [] E.op = "cret" -> RetCompact(E.t, E.ok)
    [] OTHER -> FALSE

TNext == \/ l <= Len(Traces[tr].ev) /\ Step(Traces[tr].ev[l]) /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
