---------------------------- MODULE GeoJSONTrace ----------------------------
EXTENDS GeoJSON, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<jvars, tr, l>>
TInit == JInit /\ tr \in DOMAIN Traces /\ l = 1
E == Traces[tr].ev[l]
Is(name) == E.op = name
Step ==
  \/ Is("feature") /\ Feature(E.n, E.f)
  \/ Is("convert") /\ Convert(E.n, E.s, E.ok, E.got)
  \/ Is("make") /\ Make(E.s, E.got)
  \/ Is("wire") /\ Wire(E.s, E.got)
  \/ Is("geom") /\ Geom(E.s, E.ok, E.got)
  \/ Is("collection") /\ Collection(E.ss, E.got)
  \/ Is("polyline") /\ Polyline(E.ss, E.ok, E.got)
TNext == \/ l <= Len(Traces[tr].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
