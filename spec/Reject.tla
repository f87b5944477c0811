------------------------------- MODULE Reject -------------------------------
(***************************************************************************)
(* Which geometries each operation accepts, and what a refusal does.       *)
(*                                                                         *)
(* A geometry is described by its type, how many numbers its coordinates   *)
(* are, whether its last position repeats the first, and its parts.  The   *)
(* domain of descriptions is finite and enumerated here: a run of the real *)
(* code is complete when it went through every case.                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

VARIABLES seen,      \* the cases tried
          entries    \* number of entries in the store
rvars == <<seen, entries>>

RInit == seen = {} /\ entries = 0

Ops == {"cover", "deprecated", "interior", "rect", "flat", "time", "point", "pointkey"}
Types == {"point", "line", "polygon", "multipolygon", "unknown"}
Counts == 0 .. 11

\* a part of a multipolygon, or nil
Part(n, closed) == [nil |-> FALSE, n |-> n, closed |-> closed]
NilPart == [nil |-> TRUE, n |-> 0, closed |-> FALSE]
Parts == {NilPart} \cup {Part(n, FALSE) : n \in {0, 2, 4, 5, 6, 7, 8}} \cup {Part(n, TRUE) : n \in {4, 6, 8}}

Plain(type, n, closed) == [nil |-> "no", type |-> type, n |-> n, closed |-> closed, parts |-> <<>>]
Missing(what) == [nil |-> what, type |-> "point", n |-> 0, closed |-> FALSE, parts |-> <<>>]
Multi(parts) == [nil |-> "no", type |-> "multipolygon", n |-> 0, closed |-> FALSE, parts |-> parts]

Cases ==
  {Missing("data"), Missing("geometry")}
  \cup {Plain(t, n, FALSE) : t \in Types, n \in Counts}
  \cup {Plain("polygon", n, TRUE) : n \in {4, 6, 8, 10}}
  \cup {Multi(<<p>>) : p \in Parts} \cup {Multi(<<p, q>>) : p \in Parts, q \in Parts}


-----------------------------------------------------------------------------
RingOk(n, closed) == n % 2 = 0 /\ (IF closed THEN n - 2 ELSE n) >= 6

WellFormed(g) ==
  /\ g.nil = "no"
  /\ CASE g.type = "point" -> g.n = 2
       [] g.type = "line" -> g.n >= 2 /\ g.n % 2 = 0
       [] g.type = "polygon" -> RingOk(g.n, g.closed)
       [] g.type = "multipolygon" ->
            g.parts # <<>> /\ \A i \in DOMAIN g.parts : ~ g.parts[i].nil /\ RingOk(g.parts[i].n, g.parts[i].closed)
       [] OTHER -> FALSE

Supports(op, type) ==
  CASE op \in {"point", "pointkey"} -> type = "point"
    [] op = "rect" -> type \in {"line", "polygon"}
    [] OTHER -> TRUE

Accepts(op, g) == WellFormed(g) /\ Supports(op, g.type)
\* a line of one position may go either way
Open(op, g) == g.nil = "no" /\ g.type = "line" /\ g.n = 2

Indexing == {"flat", "time", "point"}

Try(op, g, ok, n) ==
  /\ op \in Ops /\ g \in Cases
  /\ IF Accepts(op, g) THEN ok \/ Open(op, g) ELSE ~ ok
  /\ IF ok /\ op \in Indexing THEN n > entries ELSE n = entries
  /\ entries' = n /\ seen' = seen \cup {<<op, g>>}

Complete(op) == seen = {op} \X Cases /\ UNCHANGED rvars
=============================================================================
