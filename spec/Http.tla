-------------------------------- MODULE Http --------------------------------
(***************************************************************************)
(* The two HTTP endpoints.  Texts are sequences of character codes.        *)
(*                                                                         *)
(* A feature of an answer has an id (token), a uid (decimal), a level and  *)
(* a ring; of each position of the ring the harness tells which corner of  *)
(* the cell it is next to (0 to 3, counter clockwise) and how far, in      *)
(* 1e-12 degrees, at most.                                                 *)
(***************************************************************************)
EXTENDS Cells

Ring(f) ==
  LET c == f.ring
  IN /\ Len(c) = 5 /\ c[5] = c[1] /\ f.closed
     /\ {c[i] : i \in 1 .. 4} = 0 .. 3
     /\ \A i \in 1 .. 3 : (c[i + 1] - c[i]) % 2 # 0        \* a side, never a diagonal
     /\ f.dev <= 1000
\* the feature of a cell
Shows(f, x) ==
  /\ f.id = TokenOf(x)
  /\ IsDecimal(f.uid) /\ f.uid[1] # 48 /\ LET d == FromDecimal(f.uid) IN d.over = 0 /\ d.x = x
  /\ f.level = LevelOf(x)
  /\ Ring(f)

\* /api/s2cells?cells=token,token
CellsAnswer(tokens, status, features) ==
  IF tokens # <<>> /\ \A i \in DOMAIN tokens : IsToken(tokens[i])
  THEN /\ status = 200 /\ Len(features) = Len(tokens)
       /\ \A i \in DOMAIN tokens : Shows(features[i], FromHex(tokens[i]))
  ELSE status \in 200 .. 599         \* answered all the same

-----------------------------------------------------------------------------
(* /api/geojson/{min}/{max}/{cells}, one feature posted.  body: "json" for *)
(* a feature collection, anything else for a text that is none.            *)
Number(s) == IsDecimal(s) /\ (LET d == FromDecimal(s) IN d.over = 0 /\ d.x[1] < 8)
Small(s) == Number(s) /\ LET d == FromDecimal(s) IN \A i \in 1 .. 14 : d.x[i] = 0
LevelParam(s) == Small(s) /\ LET d == FromDecimal(s) IN d.x[15] * 16 + d.x[16] <= 30

RingOk(n, closed) == (IF closed THEN n - 1 ELSE n) >= 3
GoodGeometry(g) ==
  CASE g.type = "Point" -> g.n = 1
    [] g.type = "LineString" -> g.n >= 2
    [] g.type = "Polygon" -> RingOk(g.n, g.closed)
    [] OTHER -> FALSE
GoodFeature(f) == f.nil = "no" /\ f.plain /\ GoodGeometry(f)
Good(r) == /\ LevelParam(r.min) /\ LevelParam(r.max) /\ Number(r.cells)
           /\ r.body = "json" /\ Len(r.features) = 1 /\ GoodFeature(r.features[1])

\* cover: the ids of the cover of the posted geometry at the posted levels
GeoJSONAnswer(r, cover, status, features) ==
  IF Good(r)
  THEN /\ status = 200 /\ Len(features) = Len(cover)
       /\ {features[i].id : i \in DOMAIN features} = {TokenOf(cover[i]) : i \in DOMAIN cover}
       /\ \A i \in DOMAIN features : IsToken(features[i].id) /\ Shows(features[i], FromHex(features[i].id))
  ELSE status = 400
=============================================================================
