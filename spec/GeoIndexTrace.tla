--------------------------- MODULE GeoIndexTrace ----------------------------
(* Is every recorded history of the real indexes a behaviour of GeoIndex?  *)
EXTENDS GeoIndex, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<gvars, tr, l>>

TInit == GInit /\ tr \in DOMAIN Traces /\ l = 1
E == Traces[tr].ev[l]
Is(name) == E.op = name

Step ==
  \/ Is("open") /\ Open(E.x, E.kind, E.level, E.prefix)
  \/ Is("index") /\ Index(E.x, E.id, E.t, E.cover, E.must, E.pts, E.fault, E.bad, E.same, E.ok)
  \/ Is("crowd") /\ Crowd(E.x, E.ids, E.ts, E.cover, E.pts, E.same, E.ok)
  \/ Is("refused") /\ Refused(E.x, E.same)
  \/ Is("put") /\ Put(E.k, E.v)
  \/ Is("data") /\ Data(E.k, E.v)
  \/ Is("junk") /\ Junk(E.x, E.c)
  \/ Is("atcell") /\ AtCell(E.x, E.c, E.h, E.rel, E.fault, E.ok, E.ids)
  \/ Is("attime") /\ AtCellTime(E.x, E.c, E.from, E.to, E.h, E.rel, E.fault, E.ok, E.ids)
  \/ Is("atcells") /\ AtCells(E.x, E.cs, E.from, E.to, E.h, E.rel, E.fault, E.ok, E.ids)
  \/ Is("region") /\ Region(E.x, E.in, E.touch, E.from, E.to, E.h, E.rel, E.fault, E.ok, E.ids)
  \/ Is("points") /\ Points(E.x, E.in, E.may, E.h, E.rel, E.fault, E.ok, E.ids)
  \/ Is("box") /\ BoxDegrees(E.x, E.box, E.h, E.rel, E.fault, E.ok, E.ids)
  \/ Is("circle") /\ CircleDegrees(E.x, E.circle, E.h, E.rel, E.fault, E.ok, E.ids)
  \/ Is("held") /\ Held(E.h, E.ids)
  \/ Is("close") /\ Close(E.ok)
  \/ Is("twin") /\ Twin(E.x)
  \/ Is("compact") /\ Compact(E.ok)

TNext == \/ l <= Len(Traces[tr].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
