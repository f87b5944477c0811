------------------------------ MODULE GeoIndex ------------------------------
(***************************************************************************)
(* The geo indexes of oureadb: flat (cells of one level), time (cells of   *)
(* one level and an instant) and point (leaf cells), any number of them    *)
(* sharing one store with unrelated data.                                  *)
(*                                                                         *)
(* A cell is the sequence <<face, digit, ..., digit>>: a cell contains the *)
(* cells it is a prefix of.  An instant is a sequence of 16 bit limbs,     *)
(* most significant first, ordered lexicographically.  What lies inside a  *)
(* region is the caller's knowledge (an oracle of the harness): a query    *)
(* comes with what must and what may be found.                             *)
(***************************************************************************)
EXTENDS Bytes, Integers, FiniteSets, TLC

VARIABLES idx,    \* index name -> [kind, level, prefix]
          ent,    \* index name -> set of entries [c, t, id]
          smp,    \* index name -> set of sample points [p, t, id] of the objects
          data,   \* unrelated keys of the same store: key -> value
          held,   \* ids returned by queries and kept by the caller
          odd     \* index name -> cells where the store holds unreadable entries

gvars == <<idx, ent, smp, data, held, odd>>

NoTime == <<>>
Set(s) == {s[i] : i \in DOMAIN s}
Level(c) == Len(c) - 1
Inside(c, d) == HasPrefix(c, d)                  \* cell c lies in cell d
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
NoDup(s) == Cardinality(Set(s)) = Len(s)

GInit == /\ idx = <<>> /\ ent = <<>> /\ smp = <<>> /\ data = <<>>
         /\ held = <<>> /\ odd = <<>>

Open(x, kind, level, prefix) ==
  /\ x \notin DOMAIN idx
  /\ \A y \in DOMAIN idx : ~ HasPrefix(prefix, idx[y].prefix) /\ ~ HasPrefix(idx[y].prefix, prefix)
  /\ idx' = (x :> [kind |-> kind, level |-> level, prefix |-> prefix]) @@ idx
  /\ ent' = (x :> {}) @@ ent /\ smp' = (x :> {}) @@ smp /\ odd' = (x :> {}) @@ odd
  /\ UNCHANGED <<data, held>>

-----------------------------------------------------------------------------
(* Indexing: all the entries of the cover, or an error and none.           *)
(* must: cells in which the object has a point; fault: the store failed    *)
(* ("must" where that is to be reported, "may" where it need not, or "no");*)
(* bad: the geometry is not one that can be indexed; same: the caller's    *)
(* geometry, id and prefix are what they were.                             *)
Index(x, id, t, cover, must, pts, fault, bad, same, ok) ==
  /\ x \in DOMAIN idx
  /\ same
  /\ ok <=> ~ (fault = "must" \/ bad \/ id = "" \/ cover = <<>>)
  /\ bad \/ Set(must) \subseteq Set(cover)
  /\ IF ok
     THEN /\ idx[x].kind # "point" => \A i \in DOMAIN cover : Level(cover[i]) = idx[x].level
          /\ idx[x].kind = "point" => Len(cover) = 1 /\ Level(cover[1]) = 30
          /\ ent' = [ent EXCEPT ![x] = @ \cup {[c |-> c, t |-> t, id |-> id] : c \in Set(cover)}]
          /\ smp' = [smp EXCEPT ![x] = @ \cup {[p |-> p, t |-> t, id |-> id] : p \in Set(pts)}]
     ELSE UNCHANGED <<ent, smp>>
  /\ UNCHANGED <<idx, data, held, odd>>

\* Many points of one place indexed one after the other: ids[i] at the instant ts[i].
Crowd(x, ids, ts, cover, pts, same, ok) ==
  /\ x \in DOMAIN idx /\ ok /\ same /\ Len(ts) = Len(ids)
  /\ (Len(cover) = 1 /\ Level(cover[1]) = idx[x].level /\ \A i \in DOMAIN ids : ids[i] # "") = TRUE
  /\ ent' = [ent EXCEPT ![x] = @ \cup {[c |-> c, t |-> ts[i], id |-> ids[i]] : c \in Set(cover), i \in DOMAIN ids}]
  /\ smp' = [smp EXCEPT ![x] = @ \cup {[p |-> p, t |-> ts[i], id |-> ids[i]] : p \in Set(pts), i \in DOMAIN ids}]
  /\ UNCHANGED <<idx, data, held, odd>>

\* a geometry with longitudes beyond 180 degrees may be refused
Refused(x, same) == x \in DOMAIN idx /\ same /\ UNCHANGED gvars

Put(k, v) == /\ \A x \in DOMAIN idx : ~ HasPrefix(k, idx[x].prefix)
             /\ data' = (k :> v) @@ data /\ UNCHANGED <<idx, ent, smp, held, odd>>
Data(k, v) == /\ v = (IF k \in DOMAIN data THEN data[k] ELSE "nil") /\ UNCHANGED gvars
\* an entry of the index that cannot be read back appears at a cell
Junk(x, c) == odd' = [odd EXCEPT ![x] = @ \cup {c}] /\ UNCHANGED <<idx, ent, smp, data, held>>

-----------------------------------------------------------------------------
(* Queries.  Every query has closed all it opened in the store (rel).      *)
Window(E, from, to) == {e \in E : Le(e.t, from) /\ Lt(to, e.t)}
Ids(E) == {e.id : e \in E}
Answer(h, ids) == /\ held' = IF h = 0 THEN held ELSE (h :> ids) @@ held
                  /\ UNCHANGED <<idx, ent, smp, data, odd>>
\* a query may fail only if the store failed or it meets an unreadable entry
Fails(fault, meets, ok) == ~ ok /\ (fault # "no" \/ meets)

\* the entries a cell returns
EntriesAt(x, c) == {e \in ent[x] : IF idx[x].kind = "point" THEN Inside(e.c, c) ELSE e.c = c}

\* the id of each entry, once
Each(E, ids) ==
  /\ Set(ids) = Ids(E) /\ Len(ids) = Cardinality(E)
  /\ \/ NoDup(ids) /\ Cardinality(Ids(E)) = Cardinality(E)
     \/ \A id \in Ids(E) : Count(ids, id) = Cardinality({e \in E : e.id = id})

AtCell(x, c, h, rel, fault, ok, ids) ==
  /\ rel /\ x \in DOMAIN idx /\ idx[x].kind \in {"flat", "point"}
  /\ LET wrong == idx[x].kind = "flat" /\ Level(c) # idx[x].level
         E == EntriesAt(x, c)
         meets == \E o \in odd[x] : Inside(o, c)
     IN \/ /\ ok /\ fault # "must" /\ ~ wrong
           /\ Each(E, ids) = TRUE
           /\ Answer(h, ids)
        \/ /\ Fails(fault, meets \/ wrong, ok) /\ UNCHANGED gvars

\* latest first: the events of each instant follow those of all later ones
LatestFirst(E, ids) ==
  /\ Len(ids) = Cardinality(E)
  /\ \A t \in {e.t : e \in E} :
       LET n == Cardinality({e \in E : Lt(t, e.t)})
           at == {e \in E : e.t = t}
       IN {ids[i] : i \in n + 1 .. n + Cardinality(at)} = Ids(at)

AtCellTime(x, c, from, to, h, rel, fault, ok, ids) ==
  /\ rel /\ x \in DOMAIN idx /\ idx[x].kind = "time"
  /\ LET wrong == Level(c) # idx[x].level
         E == Window(EntriesAt(x, c), from, to)
     IN \/ ok /\ fault # "must" /\ ~ wrong /\ LatestFirst(E, ids) = TRUE /\ Answer(h, ids)
        \/ Fails(fault, c \in odd[x] \/ wrong, ok) /\ UNCHANGED gvars

AtCells(x, cs, from, to, h, rel, fault, ok, ids) ==
  /\ rel /\ x \in DOMAIN idx
  /\ LET C == Set(cs)
         wrong == idx[x].kind # "point" /\ \E c \in C : Level(c) # idx[x].level
         E0 == UNION {EntriesAt(x, c) : c \in C}
         E == IF idx[x].kind = "time" THEN Window(E0, from, to) ELSE E0
         meets == \E o \in odd[x] : \E c \in C : Inside(o, c)
     IN \/ ok /\ fault # "must" /\ ~ wrong /\ NoDup(ids) /\ Set(ids) = Ids(E) /\ Answer(h, ids)
        \/ Fails(fault, meets \/ wrong, ok) /\ UNCHANGED gvars

\* a region query on cells: in are the sample points certainly in the region,
\* touch the cells that may touch it
Region(x, in, touch, from, to, h, rel, fault, ok, ids) ==
  /\ rel /\ x \in DOMAIN idx /\ idx[x].kind \in {"flat", "time"}
  /\ LET W(E) == IF idx[x].kind = "time" THEN Window(E, from, to) ELSE E
         must == Ids(W({e \in smp[x] : e.p \in Set(in)}))
         may == Ids(W({e \in ent[x] : e.c \in Set(touch)}))
     IN \/ ok /\ fault # "must" /\ NoDup(ids) /\ must \subseteq Set(ids) /\ Set(ids) \subseteq may /\ Answer(h, ids)
        \/ Fails(fault, odd[x] # {}, ok) /\ UNCHANGED gvars

\* a region query on points: each position inside once, and none outside
Points(x, in, may, h, rel, fault, ok, ids) ==
  /\ rel /\ x \in DOMAIN idx /\ idx[x].kind = "point"
  /\ \/ /\ ok /\ fault # "must"
        /\ (\A id \in Set(ids) \cup Ids(ent[x]) :
              LET n == Count(ids, id)
              IN /\ n >= Cardinality({e \in ent[x] : e.id = id /\ e.c \in Set(in)})
                 /\ n <= Cardinality({e \in ent[x] : e.id = id /\ e.c \in Set(may)})) = TRUE
        /\ Answer(h, ids)
     \/ Fails(fault, odd[x] # {}, ok) /\ UNCHANGED gvars

\* The same, where whole degrees tell what lies in the region: the positions of
\* the points of the index are <<latitude, longitude>> in degrees.
Turn == 360
Same(a, b) == (a - b) % Turn = 0
\* the rectangle running east from <<s, w>> to <<n, e>>; its border is not in
\* it for sure, and may be
Whole(w, e) == e - w = Turn
InLng(w, e, l) == Whole(w, e) \/ (LET d == (l - w) % Turn IN 0 < d /\ d < (e - w) % Turn)
OnLng(w, e, l) == ~ Whole(w, e) /\ (Same(l, w) \/ Same(l, e))
InBox(b, p) == /\ (b.s < p[1] \/ b.s = -90) /\ (p[1] < b.n \/ b.n = 90)
               /\ p[1] \notin {-90, 90} /\ InLng(b.w, b.e, p[2])
MayBox(b, p) == /\ b.s <= p[1] /\ p[1] <= b.n
                /\ (p[1] \in {-90, 90} \/ InLng(b.w, b.e, p[2]) \/ OnLng(b.w, b.e, p[2]))
\* the distance of two positions, in degrees, where it is a whole number: on
\* the same or opposite meridians, on the equator; else -1
Abs(a) == IF a < 0 THEN - a ELSE a
Apart(p, q) ==
  LET d == Abs(p[2] - q[2]) % Turn
  IN CASE {p[1], q[1]} \cap {-90, 90} # {} \/ d = 0 -> Abs(p[1] - q[1])
       [] d = 180 -> LET a == Abs(p[1] + q[1]) IN 180 - a
       [] p[1] = 0 /\ q[1] = 0 -> IF d <= 180 THEN d ELSE Turn - d
       [] OTHER -> -1
\* a circle of c.r tenths of a degree (at most 9 degrees) around c.at
InCircle(c, p) == LET d == Apart(c.at, p) IN d >= 0 /\ 10 * d < c.r
MayCircle(c, p) == LET d == Apart(c.at, p) IN d < 0 \/ 10 * d <= c.r

Degrees(x, In(_), May(_), h, rel, fault, ok, ids) ==
  /\ rel /\ x \in DOMAIN idx
  /\ \/ /\ ok /\ fault # "must"
        /\ IF idx[x].kind = "point"
           THEN \A id \in Set(ids) \cup Ids(smp[x]) :
                  LET n == Count(ids, id)
                  IN /\ n >= Cardinality({e \in smp[x] : e.id = id /\ In(e.p)})
                     /\ n <= Cardinality({e \in smp[x] : e.id = id /\ May(e.p)})
           ELSE \* cells: what is inside, and perhaps more
                /\ NoDup(ids) /\ Set(ids) \subseteq Ids(smp[x])
                /\ {e.id : e \in {f \in smp[x] : In(f.p)}} \subseteq Set(ids)
        /\ Answer(h, ids)
     \/ Fails(fault, odd[x] # {}, ok) /\ UNCHANGED gvars
BoxDegrees(x, b, h, rel, fault, ok, ids) ==
  Degrees(x, LAMBDA p : InBox(b, p), LAMBDA p : MayBox(b, p), h, rel, fault, ok, ids)
CircleDegrees(x, c, h, rel, fault, ok, ids) ==
  Degrees(x, LAMBDA p : InCircle(c, p), LAMBDA p : MayCircle(c, p), h, rel, fault, ok, ids)

\* returned ids stay what they were, whatever was done since
Held(h, ids) == h \in DOMAIN held /\ ids = held[h] /\ UNCHANGED gvars
\* closing returns (nothing of past queries is left open); data survives
Close(ok) == ok /\ UNCHANGED gvars
\* another value of an index, of the same kind, level and prefix: it is the same
\* index, as all there is of it is in the store
Twin(x) == x \in DOMAIN idx /\ UNCHANGED gvars

\* compaction removes what a merge counted down to zero under d (C10): such
\* data, never an entry of an index
Zeroed(k) == k[1] = 100 /\ data[k] = "00"
Compact(ok) == /\ ok
               /\ data' = [k \in {j \in DOMAIN data : ~Zeroed(j)} |-> data[k]]
               /\ UNCHANGED <<idx, ent, smp, held, odd>>
=============================================================================
