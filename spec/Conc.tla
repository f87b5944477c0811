-------------------------------- MODULE Conc --------------------------------
(***************************************************************************)
(* Concurrent use of one store.  Every execution of a batch, opening of a  *)
(* reader and compaction has a call and a return; the store of KV changes  *)
(* at one hidden instant between the two (compaction: at any number).      *)
(*                                                                         *)
(* The hidden instants are not observable, so the state is the set of all  *)
(* configurations [db, th] the store may be in after what was observed     *)
(* (the determinised specification): an observation that leaves none is    *)
(* one no linearization explains.  Calls carry their results, and hidden   *)
(* instants are placed as late as the observations allow.                  *)
(***************************************************************************)
EXTENDS KV

VARIABLES confs,  \* possible configurations
          engine, \* "lock" or "optimistic": the latter may refuse batches that
                  \* ran concurrently with another one
          busy,   \* threads with a batch in flight
          over    \* those of them that overlapped another batch
cvars == <<confs, engine, busy, over, vars>>

\* what a thread is doing: nothing; a batch which is going to succeed, one
\* which is not; opening a reader which is going to show m, having it open;
\* compacting
Idle == [k |-> "idle"]

\* readers are served as soon as the store is what they show
Served(c) ==
  [c EXCEPT !.th = [t \in DOMAIN c.th |->
     IF c.th[t].k = "opening" /\ c.th[t].m = c.db THEN [c.th[t] EXCEPT !.k = "reader"] ELSE c.th[t]]]

\* hidden instants of one thread
Hidden(c, t) ==
  LET s == c.th[t]
  IN CASE s.k = "batch" -> {[db |-> Apply(c.db, s.ops), th |-> [c.th EXCEPT ![t] = [k |-> "applied"]]]}
       [] s.k = "compact" ->
            \* any dictionary entry whose count is zero, one at a time
            {[c EXCEPT !.db = Drop(c.db, x)] : x \in {y \in DOMAIN c.db : Zero(c.db, y)}}
       [] OTHER -> {}
After(c) == {Served(d) : d \in UNION {Hidden(c, t) : t \in DOMAIN c.th}}

\* the configurations reached first in which Done holds
RECURSIVE Until(_, _, _, _)
Until(Done(_), seen, new, found) ==
  IF new = {} THEN found
  ELSE LET fin == {c \in new : Done(c)}
           next == (UNION {After(c) : c \in new \ fin}) \ (seen \cup new)
       IN Until(Done, seen \cup new, next, found \cup fin)
Reach(Done(_)) == Until(Done, {}, confs, {})
RECURSIVE Closure(_, _)
Closure(all, new) ==
  IF new = {} THEN all
  ELSE LET next == (UNION {After(c) : c \in new}) \ all IN Closure(all \cup next, next)

CInit(e, n) == /\ confs = {[db |-> Empty, th |-> [t \in 1 .. n |-> Idle]]}
               /\ engine = e /\ busy = {} /\ over = {} /\ Init

Put(cs, t, s) == {Served([c EXCEPT !.th[t] = s]) : c \in cs}
Same == UNCHANGED <<engine, busy, over, vars>>

\* a batch is called while compactions run
Disturbed(cs) ==
  {[c EXCEPT !.th = [u \in DOMAIN c.th |->
      IF c.th[u].k = "compact" THEN [c.th[u] EXCEPT !.alone = FALSE] ELSE c.th[u]]] : c \in cs}

CallBatch(t, ops, ok) ==
  /\ confs' = Put(Disturbed(confs), t, IF ok THEN [k |-> "batch", ops |-> ops] ELSE [k |-> "failing"])
  /\ over' = IF busy = {} THEN over ELSE over \cup busy \cup {t}
  /\ busy' = busy \cup {t} /\ UNCHANGED <<engine, vars>>
RetBatch(t, ok, ops) ==
  LET cs == IF ok THEN Reach(LAMBDA c : c.th[t].k = "applied") ELSE confs
  IN /\ (cs # {}) = TRUE
     /\ (IF ok THEN ~ MustFail(ops) ELSE MustFail(ops) \/ (engine = "optimistic" /\ t \in over)) = TRUE
     /\ confs' = Put(cs, t, Idle)
     /\ busy' = busy \ {t} /\ over' = over \ {t} /\ UNCHANGED <<engine, vars>>

MapOf(kv) == [k \in {kv[i][1] : i \in DOMAIN kv} |->
                (CHOOSE p \in {kv[i] : i \in DOMAIN kv} : p[1] = k)[2]]
CallReader(t, kv) == confs' = Put(confs, t, [k |-> "opening", m |-> MapOf(kv)]) /\ Same
RetReader(t, ok) ==
  LET cs == Reach(LAMBDA c : c.th[t].k = "reader")
  IN ok /\ (cs # {}) = TRUE /\ confs' = cs /\ Same
\* everything the reader of t shows
ReaderScan(t, kv) ==
  /\ (\A i \in DOMAIN kv : i > 1 => Lt(kv[i-1][1], kv[i][1])) = TRUE
  /\ (\A c \in confs : c.th[t].k = "reader" /\ c.th[t].m = MapOf(kv)) = TRUE
  /\ confs' = confs /\ Same
ReaderGet(t, k, v) ==
  /\ (\A c \in confs : c.th[t].k = "reader" /\ Val(c.th[t].m, k) = v) = TRUE
  /\ confs' = confs /\ Same
EndReader(t) == confs' = Put(confs, t, Idle) /\ Same

CallCompact(t) == confs' = Put(confs, t, [k |-> "compact", alone |-> busy = {}]) /\ Same
\* when no batch ran meanwhile nothing with a zero count is left
AllGone(c, t) == c.th[t].alone => \A x \in DOMAIN c.db : ~ Zero(c.db, x)
RetCompact(t, ok) ==
  LET cs == {c \in Closure(confs, confs) : AllGone(c, t)}
  IN ok /\ (cs # {}) = TRUE /\ confs' = Put(cs, t, Idle) /\ Same
=============================================================================
