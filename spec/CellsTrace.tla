----------------------------- MODULE CellsTrace -----------------------------
EXTENDS Cells, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tr, l
tvars == <<tr, l>>
TInit == tr \in DOMAIN Traces /\ l = 1
E == Traces[tr].ev[l]
Is(name) == E.op = name
Step ==
  \/ Is("parse") /\ Parses(E.s, E.got) = TRUE
  \* the forms the harness writes for a cell, as the specification writes them
  \/ /\ Is("forms") /\ (E.id = Id(E.path)) = TRUE /\ (ValidId(E.id) /\ LevelOf(E.id) = Len(E.path) - 1) = TRUE
     /\ Parses(E.s, <<E.id>>) = TRUE
  \/ Is("union") /\ E.same /\ IsUnion(E.lists, E.out) = TRUE
  \/ Is("missing") /\ E.same /\ (E.out = Strike(E.from, E.to)) = TRUE
  \/ Is("runs") /\ E.same /\ (E.missing = StrikeRuns(E.from, E.to)) = TRUE
     /\ IsUnion(<<IdsOf(E.from), IdsOf(E.to)>>, E.union) = TRUE
  \/ Is("tokens") /\ (Len(E.out) = Len(E.cu) /\ \A i \in DOMAIN E.cu : E.out[i] = TokenOf(E.cu[i])) = TRUE
TNext == \/ l <= Len(Traces[tr].ev) /\ Step /\ l' = l + 1 /\ UNCHANGED tr
         \/ l = Len(Traces[tr].ev) + 1 /\ PrintT(<<"EXPLAINED", tr>>) /\ UNCHANGED tvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
