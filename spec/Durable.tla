------------------------------ MODULE Durable -------------------------------
(***************************************************************************)
(* One writer, and a crash at any point: before, between and after any two *)
(* things the store does to its files, with or without what it has not     *)
(* synced.  What a crash leaves, opened again, holds every acknowledged    *)
(* batch and, of the batch in flight, everything or nothing.               *)
(*                                                                         *)
(* The crash does not end the history here: the recorder looks at what     *)
(* every crash point would have left and carries on.                       *)
(***************************************************************************)
EXTENDS KV

VARIABLES fly,     \* the batch in flight: a sequence of operations, or <<>>
          created, \* whether opening the store for the first time returned
          fresh    \* nothing was executed since the store was last reopened
dvars == <<vars, fly, created, fresh>>

DInit == Init /\ fly = <<>> /\ created = FALSE /\ fresh = FALSE

Created == /\ created' = TRUE /\ UNCHANGED <<vars, fly, fresh>>
Call(ops) == /\ created /\ fly = <<>> /\ fly' = ops /\ UNCHANGED <<vars, created, fresh>>
Return(ok) ==
  /\ (ok # MustFail(fly)) = TRUE
  /\ db' = IF ok THEN Apply(db, fly) ELSE db
  /\ fly' = <<>> /\ fresh' = (fresh /\ (~ ok \/ fly = <<>>))
  /\ UNCHANGED <<snap, iter, batch, held, mode, created>>
\* a clean close and a reopening
Reopened == fly = <<>> /\ fresh' = TRUE /\ UNCHANGED <<vars, fly, created>>

MayHold == {db} \cup (IF MustFail(fly) THEN {} ELSE {Apply(db, fly)})
MapOf(kv) == [k \in {kv[i][1] : i \in DOMAIN kv} |->
                (CHOOSE p \in {kv[i] : i \in DOMAIN kv} : p[1] = k)[2]]
Ascending(kv) == \A i \in DOMAIN kv : i > 1 => Lt(kv[i-1][1], kv[i][1])
\* what a crash here leaves, opened again (ok), holds kv; if used, a batch was
\* executed on it and, opened once more, it holds kv2
Crash(ok, kv, used, ops, kv2) ==
  /\ (ok \/ ~ created) = TRUE
  /\ ok => (Ascending(kv) /\ MapOf(kv) \in MayHold) = TRUE
  /\ (ok /\ used) => (Ascending(kv2) /\ MapOf(kv2) = Apply(MapOf(kv), ops)) = TRUE
  /\ UNCHANGED dvars

\* what a crash here leaves, opened, held kv; ops were executed on it and, at
\* some stage of all that, came another crash; that one leaves kv2
Crash2(stage, kv, ops, ok, kv2) ==
  LET m == MapOf(kv)
  IN /\ (ok \/ (~ created /\ stage = "opening")) = TRUE
     /\ (Ascending(kv) /\ m \in MayHold) = TRUE
     /\ ok => (Ascending(kv2) /\ CASE stage = "opening" -> MapOf(kv2) \in MayHold
           [] stage = "opened" -> MapOf(kv2) = m
           [] stage = "flying" -> MapOf(kv2) \in {m, Apply(m, ops)}
           [] stage = "done" -> MapOf(kv2) = Apply(m, ops)) = TRUE
     /\ UNCHANGED dvars

(* The finding of KNOWN_FINDINGS.  badger 1.6.0 replays its value log from *)
(* where it was when last written to its tables; if the first record there *)
(* is torn it truncates the log to nothing.  So a crash that leaves part   *)
(* of the first batch since a reopening in the value log (vlog) takes the  *)
(* values kept there (long ones) of all batches: their keys remain.        *)
FindingTornValueLog(ok, kv, vlog) ==
  /\ ok /\ vlog /\ fresh
  /\ LET r == MapOf(kv) IN
     (\E m \in MayHold : DOMAIN r = DOMAIN m /\ \A k \in DOMAIN m : r[k] \in {m[k], ""}) = TRUE
  /\ UNCHANGED dvars
=============================================================================
