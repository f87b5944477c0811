------------------------------- MODULE Cover --------------------------------
(***************************************************************************)
(* Covers, interior covers and bounding rectangles of stored geometries.   *)
(*                                                                         *)
(* A cell is the sequence <<face, digit, ..., digit>>; a cell contains the *)
(* cells it is a prefix of.  Angles are integers, in millionths of a       *)
(* degree.  What the oracle of the harness knows of a geometry: sample     *)
(* points, each as the leaf cells it may be in (a point of a border may    *)
(* fall on either side), and the exact extent of its latitudes and         *)
(* longitudes.  Of each cell of an answer it knows whether the cell is     *)
(* certainly apart from the geometry, and whether it certainly pokes out   *)
(* of it.                                                                  *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC

VARIABLES geo     \* geometry -> [type, polygons, samples, ext]
cvars == <<geo>>

Set(s) == {s[i] : i \in DOMAIN s}
Level(c) == Len(c) - 1
Turn == 360000000

CInit == geo = <<>>

Types == {"point", "line", "polygon", "multipolygon"}
Define(g, type, polygons, samples, ext) ==
  /\ type \in Types /\ samples # <<>>
  /\ geo' = (g :> [type |-> type, polygons |-> polygons, samples |-> samples, ext |-> ext]) @@ geo

(* a leaf lies in one of the cells iff one of its ancestors is one of them *)
Ancestors(leaf) == {SubSeq(leaf, 1, n) : n \in 1 .. Len(leaf)}
Covered(sample, C) == UNION {Ancestors(sample[i]) : i \in DOMAIN sample} \cap C # {}

IsCell(c) == /\ Len(c) \in 1 .. 31 /\ c[1] \in 0 .. 5
             /\ \A i \in 2 .. Len(c) : c[i] \in 0 .. 3

\* the cover contains the whole geometry, and only cells touching it
\* (of a very large cover, of n cells, only the first are recorded)
CoverOf(g, min, max, n, cells, apart, same, ok) ==
  /\ ok /\ same /\ g \in DOMAIN geo
  /\ (\A i \in DOMAIN cells : IsCell(cells[i])) = TRUE
  /\ (LET C == Set(cells)
      IN n > Len(cells) \/ \A i \in DOMAIN geo[g].samples : Covered(geo[g].samples[i], C)) = TRUE
  /\ apart = <<>>
  /\ ~ (min = max /\ \E i \in DOMAIN cells : Level(cells[i]) # min)
  /\ UNCHANGED cvars

\* the interior cover lies inside; roomy: a cell of the coarsest level that is
\* certainly inside exists and the coverer allows cells
InteriorOf(g, min, max, maxcells, roomy, cells, pokes, same, ok) ==
  /\ ok /\ same /\ g \in DOMAIN geo /\ geo[g].type \in {"polygon", "multipolygon"}
  /\ (\A i \in DOMAIN cells : IsCell(cells[i]) /\ Level(cells[i]) \in min .. max) = TRUE
  /\ pokes = <<>>
  /\ Len(cells) <= maxcells * geo[g].polygons
  /\ ~ (roomy /\ cells = <<>>)
  /\ UNCHANGED cvars

Min(a, b) == IF a < b THEN a ELSE b
Near(a, b, t) == Min((a - b) % Turn, (b - a) % Turn) <= t
\* the bounding rectangle is the extent of the geometry
RectOf(g, r, same, ok) ==
  /\ ok /\ same /\ g \in DOMAIN geo /\ geo[g].type \in {"line", "polygon"}
  /\ LET e == geo[g].ext
     IN /\ Near(r.s, e.s, e.tol) /\ Near(r.n, e.n, e.tol)
        /\ IF e.width >= Turn - e.tol THEN r.width >= Turn - e.tol
           ELSE Near(r.w, e.w, e.tol) /\ r.width \in (e.width - e.tol) .. (e.width + e.tol)
  /\ UNCHANGED cvars
=============================================================================
