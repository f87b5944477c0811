----------------------------- MODULE ImplIndex ------------------------------
(***************************************************************************)
(* How the geo indexes put entries into the key space, and which key       *)
(* ranges their queries scan.  Bytes are scaled down: a cell id has Width  *)
(* bits, written most significant first; a time Bits bits.                 *)
(*                                                                         *)
(* A cell id is an S2 cell id in small: face, two bits per level, a one,   *)
(* zeros.  Keys: prefix, cell id, id (flat, point); prefix, cell id,       *)
(* reversed time, id (time).                                               *)
(*                                                                         *)
(* Checked, for every cell, entry and id: a scan finds an entry exactly if *)
(* GeoIndex says so (AtCell, AtCellTime), never an entry of an index or    *)
(* data key under an unrelated prefix, and the id is what follows.         *)
(***************************************************************************)
EXTENDS Bytes, Integers, FiniteSets

CONSTANTS Depth, Faces, Bits, Wrong
VARIABLES cell, entry  \* a queried cell and window, an entry

\* Wrong: "" or a mistake to be refuted: "last" (the last leaf is not scanned),
\* "signed" (times written as signed numbers), "direct" (times not reversed)

RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
FaceBits == 2
Width == FaceBits + 2 * Depth + 1
Lsb(c) == Pow(2, 2 * (Depth + 1 - Len(c)))                \* of a cell with Len(c) - 1 digits
RECURSIVE PathNum(_, _)
PathNum(c, i) == IF i > Len(c) THEN 0 ELSE c[i] * Pow(4, Depth + 1 - i) * 2 + PathNum(c, i + 1)
Num(c) == PathNum(c, 1) + Lsb(c)
RangeMin(c) == Num(c) - Lsb(c) + 1
RangeMax(c) == Num(c) + Lsb(c) - 1

RECURSIVE Digits(_, _)
Digits(n, w) == IF w = 0 THEN <<>> ELSE Digits(n \div 2, w - 1) \o <<n % 2>>
Key(n) == Digits(n, Width)

RECURSIVE Paths(_)
Paths(n) == IF n = 0 THEN {<<>>} ELSE {p \o <<d>> : p \in Paths(n - 1), d \in 0 .. 3}
CellsAt(n) == {<<f>> \o p : f \in 0 .. Faces - 1, p \in Paths(n)}
Leaves == CellsAt(Depth)
AllCells == UNION {CellsAt(n) : n \in 0 .. Depth}
Ids == {<<0>>, <<1>>, <<0, 0>>, <<1, 1, 1>>}
\* prefixes of several indexes, none a prefix of another
Prefixes == {<<>>, <<0>>, <<1, 0>>, <<1, 1>>}
Free(p, q) == ~ HasPrefix(p, q) /\ ~ HasPrefix(q, p)

Half == Pow(2, Bits - 1)
Times == (0 - Half) .. (Half - 1)
Rev(t) == IF Wrong = "direct" THEN (t + 2 * Half) % (2 * Half)
          ELSE IF Wrong = "signed" THEN (0 - t + 2 * Half) % (2 * Half)
          ELSE (Half - 1 - t) % (2 * Half)
TimeKey(t) == Digits(Rev(t), Bits)

-----------------------------------------------------------------------------
Init == /\ cell \in [c : AllCells, from : Times, to : Times]
        /\ entry \in [c : AllCells, p : Prefixes, t : Times, id : Ids]
Next == FALSE /\ UNCHANGED <<cell, entry>>
Spec == Init /\ [][Next]_<<cell, entry>>

Between(k, s, e) == Le(s, k) /\ Lt(k, e)
\* a point index scans from the first leaf of the cell to the last, included
PointKey(p, e) == p \o Key(Num(e.c)) \o e.id
PointScan(p, c) == <<p \o Key(RangeMin(c)), p \o Key(RangeMax(c) + IF Wrong = "last" THEN 0 ELSE 1)>>
FlatKey(p, e) == p \o Key(Num(e.c)) \o e.id
TKey(p, e) == p \o Key(Num(e.c)) \o TimeKey(e.t) \o e.id
TScan(p, c) == <<p \o Key(Num(c.c)) \o TimeKey(c.from), p \o Key(Num(c.c)) \o TimeKey(c.to)>>

Point == entry.c \in Leaves =>
  \A p \in Prefixes : p = entry.p \/ Free(p, entry.p) =>
    LET s == PointScan(p, cell.c) IN Between(PointKey(entry.p, entry), s[1], s[2]) <=> (p = entry.p /\ HasPrefix(entry.c, cell.c))
\* the flat index scans a prefix; all its cells are of one level
Flat == \A p \in Prefixes : (p = entry.p \/ Free(p, entry.p)) /\ Len(cell.c) = Len(entry.c) =>
    (HasPrefix(FlatKey(entry.p, entry), p \o Key(Num(cell.c))) <=> (p = entry.p /\ entry.c = cell.c))
Time == \A p \in Prefixes : (p = entry.p \/ Free(p, entry.p)) /\ Len(cell.c) = Len(entry.c) =>
    LET s == TScan(p, cell) IN Between(TKey(entry.p, entry), s[1], s[2]) <=>
      (p = entry.p /\ entry.c = cell.c /\ entry.t <= cell.from /\ entry.t > cell.to)
\* later events come first in the scan
Latest == \A t \in Times : t > entry.t => Lt(TKey(entry.p, [entry EXCEPT !.t = t]), TKey(entry.p, entry))
\* ids read back from behind the fixed part
ReadBack == /\ SubSeq(FlatKey(entry.p, entry), Len(entry.p) + Width + 1, Len(FlatKey(entry.p, entry))) = entry.id
            /\ SubSeq(TKey(entry.p, entry), Len(entry.p) + Width + Bits + 1, Len(TKey(entry.p, entry))) = entry.id
=============================================================================
