----------------------------- MODULE Lifecycle ------------------------------
(***************************************************************************)
(* Opening, configuring and closing stores.  The contents of the store     *)
(* currently open are those of KV (db); disk holds those of every path and *)
(* bucket while it is not open.                                            *)
(*                                                                         *)
(* Options: path (0: none usable given), bucket, ro, cim and eie           *)
(* ("unset", "true", "false").  Tuning options are no part of the state:   *)
(* no result depends on them.                                              *)
(***************************************************************************)
EXTENDS KVSteps

VARIABLES kind,    \* the engine: "bolt", "goleveldb", "badger", "gtreap"
          disk,    \* [path, bucket] -> contents
          made,    \* paths at which a store exists
          touched, \* bolt files a refused opening left behind, without buckets
          blocked, \* paths on which no store can be made at the moment
          cur      \* what is open: [path, bucket, ro] or a record with path 0

lvars == <<vars, kind, disk, made, touched, blocked, cur>>
Closed == [path |-> 0, bucket |-> "", ro |-> FALSE]

LInit(k) == /\ InitIn("closed") /\ kind = k /\ disk = <<>> /\ made = {} /\ touched = {}
            /\ blocked = {} /\ cur = Closed

\* only bolt knows buckets, and whether a bucket is there shows to readers
\* of a file opened read only alone
Place(o) == <<o.path, IF kind = "bolt" THEN o.bucket ELSE "">>
Contents(o) == IF Place(o) \in DOMAIN disk THEN disk[Place(o)] ELSE Empty

MustRefuse(o) ==
  \/ o.path = 0
  \/ o.path \in blocked
  \/ kind = "goleveldb" /\ o.cim = "false" /\ o.path \notin made
  \/ kind = "goleveldb" /\ o.eie = "true" /\ o.path \in made
  \/ kind = "goleveldb" /\ o.ro /\ o.path \notin made
  \/ kind = "bolt" /\ o.ro /\ o.path \notin made \cup touched
  \/ kind = "bolt" /\ o.bucket = "" /\ ~ o.ro
MayRefuse(o) == MustRefuse(o) \/ (kind = "bolt" /\ o.ro /\ Place(o) \notin DOMAIN disk)
ReadOnly(o) == o.ro /\ kind \in {"goleveldb", "bolt"}

Open(o, ok) ==
  /\ mode = "closed"
  /\ IF ok
     THEN /\ (~ MustRefuse(o)) = TRUE
          /\ db' = Contents(o)
          /\ mode' = IF ReadOnly(o) THEN "ro" ELSE "rw"
          /\ cur' = [path |-> o.path, bucket |-> o.bucket, ro |-> ReadOnly(o)]
          /\ made' = made \cup {o.path}
          /\ disk' = IF ReadOnly(o) THEN disk ELSE (Place(o) :> Contents(o)) @@ disk
          /\ batch' = <<>>
          /\ UNCHANGED <<snap, iter, held, kind, touched, blocked>>
     ELSE /\ MayRefuse(o) = TRUE
          /\ touched' = IF kind = "bolt" /\ ~ o.ro /\ o.path # 0 /\ o.path \notin blocked
                        THEN touched \cup {o.path} ELSE touched
          /\ UNCHANGED <<vars, kind, disk, made, blocked, cur>>

\* everything opened from the store is closed first; the batches stay the
\* caller's, a closed store refuses them
Close(ok) ==
  /\ ok /\ mode # "closed" /\ snap = <<>> /\ iter = <<>>
  /\ disk' = IF kind = "gtreap" THEN disk
             ELSE IF cur.ro THEN disk
             ELSE (Place(cur) :> db) @@ disk
  /\ db' = Empty /\ mode' = "closed" /\ cur' = Closed
  /\ UNCHANGED <<snap, iter, batch, held, kind, made, touched, blocked>>

\* a closed store hands out no reader
ClosedReader(ok) == mode = "closed" /\ ~ ok /\ UNCHANGED lvars
\* a bucket that is not there: an error, or nothing to read
MissingBucket == mode = "ro" /\ kind = "bolt" /\ Place(cur) \notin DOMAIN disk
NoBucketReader(ok) == MissingBucket /\ ~ ok /\ UNCHANGED lvars

\* compacting a closed store is an error, and so it is for one opened read only
\* from which there is something to remove; neither changes anything
IdleCompact(ok) ==
  /\ mode \in {"closed", "ro"}
  /\ ok => mode = "ro" /\ Compacted(db) = db
  /\ UNCHANGED lvars

\* the world: something else at a path, and its removal
Block(p) == p \notin made /\ blocked' = blocked \cup {p} /\ UNCHANGED <<vars, kind, disk, made, touched, cur>>
Unblock(p) == p \in blocked /\ blocked' = blocked \ {p} /\ UNCHANGED <<vars, kind, disk, made, touched, cur>>

OnStore(e) == /\ e.op \notin {"reopen", "exec"} \/ (e.op = "exec" /\ e.b \in DOMAIN batch)
              /\ KVStep(e)
              /\ UNCHANGED <<kind, disk, made, touched, blocked, cur>>
=============================================================================
