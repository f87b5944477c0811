------------------------------ MODULE MCRegion ------------------------------
(***************************************************************************)
(* Rectangles and circles around points at whole degrees: the specification*)
(* says itself, in integers, what is inside.  All of them are written out  *)
(* for the real point index.                                               *)
(***************************************************************************)
EXTENDS GeoIndex, Json, IOUtils, CSV, SequencesExt, Integers

VARIABLES ask
mvars == <<gvars, ask>>

Grid == ({-89, -60, -45, -10, 0, 33, 60, 89} \X {-180, -179, -135, -90, -45, -1, 0, 10, 89, 90, 135, 170, 179}) \cup {<<90, 0>>, <<-90, 0>>}
Souths == {-90, -60, -45, 0, 33, 75}
Norths == {-75, -45, 0, 10, 33, 60, 90}
Edges == {-180, -170, -135, -90, 0, 5, 45, 90, 135, 180}
Boxes == {[s |-> s, w |-> w, n |-> n, e |-> e] : s \in Souths, w \in Edges, n \in Norths, e \in Edges}
Good(b) == b.s < b.n /\ (~ Same(b.w, b.e) \/ (b.w = -180 /\ b.e = 180))

Around == ({<<a, 0>> : a \in -9 .. 9}) \cup {<<0, a>> : a \in -9 .. 9} \cup {<<0, 171>>, <<0, 174>>, <<0, 177>>, <<0, 179>>, <<0, -180>>, <<0, -178>>, <<0, -175>>, <<0, -172>>}
          \cup {<<a, b>> : a \in {-5, 3}, b \in {-180, 179}}
          \cup ({89, 86, 82} \X {0, 90, -180, -90}) \cup ({-88, -83} \X {45, -135}) \cup {<<90, 0>>, <<-90, 45>>}
Radii == {5, 15, 25, 35, 55, 85}

MInit == /\ idx = ("p" :> [kind |-> "point", level |-> 30, prefix |-> <<112>>])
         /\ ent = ("p" :> {}) /\ odd = ent /\ data = <<>> /\ held = <<>>
         /\ smp = ent /\ ask = [op |-> "none"]
MNext == /\ ask.op = "none" /\ UNCHANGED gvars
         /\ \/ \E b \in Boxes : Good(b) /\ ask' = [op |-> "box", box |-> b]
            \/ \E p \in Around, r \in Radii : ask' = [op |-> "circle", circle |-> [at |-> p, r |-> r]]
MSpec == MInit /\ [][MNext]_mvars

-----------------------------------------------------------------------------
(* What is checked: a rectangle and the one running on from its east side  *)
(* to its west side have every position of the band in one of them, and    *)
(* only border in both; moving a rectangle and a position by the same      *)
(* angle, or mirroring both, changes nothing.                              *)
Box == ask.box
Rest == [Box EXCEPT !.w = Box.e, !.e = Box.w]
Band(p) == Box.s <= p[1] /\ p[1] <= Box.n
Pole(p) == p[1] \in {-90, 90}
Halves ==
  ask.op = "box" =>
    \A p \in Grid : Whole(Box.w, Box.e) \/ Pole(p) \/
      /\ Band(p) => MayBox(Box, p) \/ MayBox(Rest, p)
      /\ ~ (InBox(Box, p) /\ MayBox(Rest, p))
      /\ InBox(Box, p) => MayBox(Box, p)
Move(l, d) == ((l + d + 180) % Turn) - 180
Moved ==
  ask.op = "box" => \A p \in Grid : \A d \in {1, 90, 180, 271} :
    LET m == [Box EXCEPT !.w = Move(Box.w, d), !.e = Move(Box.e, d)]
    IN ~ Whole(Box.w, Box.e) => InBox(m, <<p[1], Move(p[2], d)>>) = InBox(Box, p)
Mirrored ==
  ask.op = "box" => \A p \in Grid :
    /\ InBox([Box EXCEPT !.w = - Box.e, !.e = - Box.w], <<p[1], - p[2]>>) = InBox(Box, p)
    /\ InBox([Box EXCEPT !.s = - Box.n, !.n = - Box.s], <<- p[1], p[2]>>) = InBox(Box, p)
\* distances are symmetric, and the triangle inequality holds
Metric ==
  ask.op = "circle" /\ ask.circle.r = 5 => LET c == ask.circle.at IN
    \A p \in Around :
      /\ Apart(c, p) = Apart(p, c) /\ (Apart(c, p) = 0 => p[1] = c[1])
      /\ \A q \in Around : (Apart(c, p) >= 0 /\ Apart(p, q) >= 0 /\ Apart(c, q) >= 0) => Apart(c, q) <= Apart(c, p) + Apart(p, q)

Emit == "SCRIPTS" \notin DOMAIN IOEnv \/ CSVWrite("%1$s", <<ToJson(ask')>>, IOEnv.SCRIPTS)
ASSUME "SCRIPTS" \notin DOMAIN IOEnv \/ CSVWrite("%1$s", <<ToJson([box |-> SetToSeq(Grid), circle |-> SetToSeq(Around)])>>, IOEnv.SCRIPTS)
=============================================================================
