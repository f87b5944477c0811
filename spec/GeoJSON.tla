------------------------------ MODULE GeoJSON -------------------------------
(***************************************************************************)
(* GeoJSON features, their stored form, and back.                          *)
(*                                                                         *)
(* A number is the hexadecimal text of its bits, so equal means the same   *)
(* number.  The coordinates of a feature are a list of rings (one for a    *)
(* point or a line), a ring a list of positions, a position a list of 2 to *)
(* 4 numbers.  A stored geometry has one ring of pairs, and one per polygon   *)
(* when it is a multipolygon, which only the caller makes.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC

VARIABLES fea,   \* feature -> [type, rings, props]
          sto    \* stored form -> [type, rings, props]
jvars == <<fea, sto>>

JInit == fea = <<>> /\ sto = <<>>

Storable == {"Point", "LineString", "Polygon"}
Scalars == {"bool", "number", "string"}

\* properties: name -> [k, v]
Plain(props) == \A n \in DOMAIN props : props[n].k \in Scalars \cup {"null"}
Kept(props) == [n \in {n \in DOMAIN props : props[n].k # "null"} |-> props[n]]

Pairs(ring) == [i \in DOMAIN ring |-> SubSeq(ring[i], 1, 2)]
Convertible(f) == /\ f.type \in Storable /\ Plain(f.props)
                  /\ f.type = "Polygon" => f.rings # <<>>
Stored(f) == [type |-> f.type, rings |-> <<Pairs(f.rings[1])>>, props |-> Kept(f.props)]

Feature(n, f) == fea' = (n :> f) @@ fea /\ UNCHANGED sto

\* converting a feature gives its stored form, or an error
Convert(n, s, ok, got) ==
  /\ n \in DOMAIN fea /\ ok = Convertible(fea[n])
  /\ IF ok THEN got = Stored(fea[n]) /\ sto' = (s :> got) @@ sto ELSE UNCHANGED sto
  /\ UNCHANGED fea

\* the protobuf encoding gives back what was encoded
Wire(s, got) == s \in DOMAIN sto /\ got = sto[s] /\ UNCHANGED jvars

\* a multipolygon of the caller
Make(s, g) == /\ g.type = "MultiPolygon" /\ g.rings # <<>> /\ (\A i \in DOMAIN g.rings : Pairs(g.rings[i]) = g.rings[i]) = TRUE
              /\ sto' = (s :> g) @@ sto /\ UNCHANGED fea

\* back to a geometry (no properties); there is none for a multipolygon
Geom(s, ok, got) == /\ s \in DOMAIN sto /\ ok = (sto[s].type \in Storable)
                    /\ ok => got = [type |-> sto[s].type, rings |-> sto[s].rings]
                    /\ UNCHANGED jvars

\* back to a feature collection
Collection(ss, got) == got = [i \in DOMAIN ss |-> sto[ss[i]]] /\ UNCHANGED jvars

\* points make one line through them in order; anything else is refused
Polyline(ss, ok, got) ==
  /\ LET pts == \A i \in DOMAIN ss : sto[ss[i]].type = "Point"
     IN IF pts THEN ok /\ got.type = "LineString" /\ got.rings = <<[i \in DOMAIN ss |-> sto[ss[i]].rings[1][1]]>>
        ELSE ~ ok
  /\ UNCHANGED jvars
=============================================================================
