----------------------------- MODULE IndexConc ------------------------------
(***************************************************************************)
(* Indexes used by several threads at once.  Indexing an object takes      *)
(* effect as a whole at one hidden instant between its call and return; a  *)
(* lookup of one cell shows the index of one instant between its own; a    *)
(* lookup of several cells, or of a region, is made of lookups of one cell *)
(* in any order.  Nothing is ever taken out of an index.                   *)
(*                                                                         *)
(* As in Conc the state is the set of all configurations the indexes may   *)
(* be in after what was observed: which entries are in, and what threads   *)
(* are doing.  Calls carry their answers.                                  *)
(***************************************************************************)
EXTENDS Bytes, Integers, FiniteSets, TLC

VARIABLES kind,  \* index name -> "flat", "point", "time"
          ents,  \* every object whose indexing has begun: number -> [x, id, time, cover]
          confs  \* possible configurations [in, th]
cvars == <<kind, ents, confs>>

Set(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Set(s)) = Len(s)
Idle == [k |-> "idle"]

\* what a query is about; the cells of a region query are all those there are
Covers(x, e, c) == IF kind[x] = "point" THEN \E d \in e.cover : HasPrefix(d, c) ELSE c \in e.cover
About(q, e) ==
  /\ e.x = q.x
  /\ kind[q.x] = "time" => Le(e.time, q.from) /\ Lt(q.to, e.time)
  /\ q.what = "all" \/ \E c \in Set(q.cs) : Covers(q.x, e, c)
Found(S, q) == {ents[n].id : n \in {m \in S : About(q, ents[m])}}

\* a lookup of one cell is served as soon as the index is what it shows
Served(c) ==
  [c EXCEPT !.th = [t \in DOMAIN c.th |->
     IF c.th[t].k = "one" /\ Found(c.in, c.th[t].q) = c.th[t].ids THEN [k |-> "answered"] ELSE c.th[t]]]
\* hidden instants
After(c) == {Served([in |-> c.in \cup {c.th[t].n}, th |-> [c.th EXCEPT ![t] = [k |-> "in"]]]) :
               t \in {u \in DOMAIN c.th : c.th[u].k = "indexing"}}
\* the configurations reached first in which Done holds
RECURSIVE Until(_, _, _, _)
Until(Done(_), seen, new, found) ==
  IF new = {} THEN found
  ELSE LET fin == {c \in new : Done(c)}
           next == (UNION {After(c) : c \in new \ fin}) \ (seen \cup new)
       IN Until(Done, seen \cup new, next, found \cup fin)
Reach(Done(_)) == Until(Done, {}, confs, {})
Put(cs, t, s) == {Served([c EXCEPT !.th[t] = s]) : c \in cs}

CInit(n) == /\ kind = <<>> /\ ents = <<>>
            /\ confs = {[in |-> {}, th |-> [t \in 1 .. n |-> Idle]]}
Open(x, k) == x \notin DOMAIN kind /\ kind' = (x :> k) @@ kind /\ UNCHANGED <<ents, confs>>

Call(t, n, x, id, time, cover) ==
  /\ n \notin DOMAIN ents
  /\ ents' = (n :> [x |-> x, id |-> id, time |-> time, cover |-> cover]) @@ ents
  /\ confs' = Put(confs, t, [k |-> "indexing", n |-> n]) /\ UNCHANGED kind
\* the configurations in which an indexing, a query may return
RetConfs(t) == Reach(LAMBDA c : c.th[t].k = "in")
Ret(t, ok) ==
  LET cs == RetConfs(t)
  IN ok /\ (cs # {}) = TRUE /\ confs' = Put(cs, t, Idle) /\ UNCHANGED <<kind, ents>>

AskCall(t, q, ids) ==
  /\ confs' = {Served([c EXCEPT !.th[t] =
        IF q.what = "one" THEN [k |-> "one", q |-> q, ids |-> Set(ids)]
        ELSE [k |-> "many", q |-> q, least |-> Found(c.in, q)]]) : c \in confs}
  /\ UNCHANGED <<kind, ents>>
\* the events of each instant follow those of all later ones
LatestFirst(q, ids) ==
  LET T(id) == {ents[n].time : n \in {m \in DOMAIN ents : ents[m].id = id /\ About(q, ents[m])}}
  IN \A i \in DOMAIN ids : i > 1 => \E a \in T(ids[i - 1]), b \in T(ids[i]) : Le(b, a)
AskConfs(t, ids) ==
  IF \E c \in confs : c.th[t].k \in {"one", "answered"}
  THEN Reach(LAMBDA c : c.th[t].k = "answered")
  ELSE {c \in Reach(LAMBDA c : c.th[t].least \subseteq Set(ids) => Set(ids) \subseteq Found(c.in, c.th[t].q)) :
          c.th[t].least \subseteq Set(ids)}
AskRet(t, ok, ids) ==
  LET cs == AskConfs(t, ids)
  IN /\ ok /\ NoDup(ids) /\ (cs # {}) = TRUE
     /\ confs' = Put(cs, t, Idle) /\ UNCHANGED <<kind, ents>>
Ordered(q, ids) == (kind[q.x] = "time" /\ q.what = "one" => LatestFirst(q, ids)) = TRUE
=============================================================================
