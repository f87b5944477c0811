----------------------------- MODULE CoverTrace -----------------------------
EXTENDS Cover, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<cvars, tr, l>>
TInit == CInit /\ tr \in DOMAIN Traces /\ l = 1
E == Traces[tr].ev[l]
Is(name) == E.op = name
Step ==
  \/ Is("geom") /\ Define(E.g, E.type, E.polygons, E.samples, E.ext)
  \/ Is("cover") /\ CoverOf(E.g, E.min, E.max, E.n, E.cells, E.apart, E.same, E.ok)
  \/ Is("interior") /\ InteriorOf(E.g, E.min, E.max, E.maxcells, E.roomy, E.cells, E.pokes, E.same, E.ok)
  \/ Is("rect") /\ RectOf(E.g, E.r, E.same, E.ok)
TNext == \/ l <= Len(Traces[tr].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
