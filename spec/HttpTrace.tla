----------------------------- MODULE HttpTrace ------------------------------
EXTENDS Http, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<tr, l>>
TInit == tr \in DOMAIN Traces /\ l = 1
E == Traces[tr].ev[l]
Is(name) == E.op = name
Step ==
  \/ Is("cells") /\ CellsAnswer(E.tokens, E.status, E.features) = TRUE
  \/ Is("geojson") /\ GeoJSONAnswer(E.req, E.cover, E.status, E.features) = TRUE
TNext == \/ l <= Len(Traces[tr].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
