--------------------------- MODULE IndexConcTrace ---------------------------
(* Is every recorded concurrent history of real indexes a behaviour of     *)
(* IndexConc?                                                              *)
EXTENDS IndexConc, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<cvars, tr, l>>

TInit == tr \in DOMAIN Traces /\ l = 1 /\ CInit(9)
Q(E) == [x |-> E.x, what |-> E.what, cs |-> E.cs, from |-> E.from, to |-> E.to]
Step(E) ==
  CASE E.op = "open" -> Open(E.x, E.kind)
    [] E.op = "call" -> Call(E.t, E.n, E.x, E.id, E.time, Set(E.cover))
    [] E.op = "ret" -> Ret(E.t, E.ok)
    [] E.op = "qcall" -> AskCall(E.t, Q(E), E.ids)
    [] E.op = "qret" -> AskRet(E.t, E.ok, E.ids) /\ Ordered(Q(E), E.ids)
    [] E.op = "close" -> E.ok /\ UNCHANGED cvars
    [] OTHER -> FALSE
TNext == \/ l <= Len(Traces[tr].ev) /\ Step(Traces[tr].ev[l]) /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
