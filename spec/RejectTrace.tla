---------------------------- MODULE RejectTrace -----------------------------
EXTENDS Reject, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<rvars, tr, l>>
TInit == RInit /\ tr \in DOMAIN Traces /\ l = 1
E == Traces[tr].ev[l]
Is(name) == E.op = name
Step ==
  \/ Is("try") /\ Try(E.call, E.g, E.ok, E.n)
  \/ Is("complete") /\ Complete(E.call)
TNext == \/ l <= Len(Traces[tr].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
