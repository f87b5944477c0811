------------------------------ MODULE ImplWal -------------------------------
(***************************************************************************)
(* How goleveldb and badger keep the promise of Durable: the records of a  *)
(* batch are appended to a log, the log is synced, then the batch is       *)
(* acknowledged.  A crash leaves what was synced and any part of the rest, *)
(* the last record perhaps torn; recovery replays the batches that are     *)
(* complete up to the first record that is not, and cuts the log there.    *)
(* Crashes may follow each other, also during recovery.                    *)
(*                                                                         *)
(* Variant "": as it should be.  Refuted: "nosync" acknowledges before the *)
(* sync; "half" replays incomplete batches; "nocut" leaves the torn end in *)
(* the log, where later records are lost behind it; "head" is badger 1.6.0 *)
(* (KNOWN_FINDINGS): recovery starts where the tables end, and if the      *)
(* first record there is torn it cuts the whole log, on which the tables   *)
(* depend for their values.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Batches, Crashes, Variant

VARIABLES disk, tail,  \* the log: synced, and not
          head,        \* the records before are also in the tables
          db,          \* the records applied, in order
          acked, fly, lost, \* batches acknowledged, in flight, in flight at a crash
          written,     \* records of the batch in flight written so far
          up, n, crashes, recovering
vars == <<disk, tail, head, db, acked, fly, lost, written, up, n, crashes, recovering>>

Parts == 2
Torn == <<0, 0>>
Init == /\ disk = <<>> /\ tail = <<>> /\ head = 0 /\ db = <<>> /\ acked = {} /\ fly = 0
        /\ lost = {} /\ written = 0 /\ up = TRUE /\ n = 0 /\ crashes = 0 /\ recovering = FALSE

Call == /\ up /\ fly = 0 /\ n < Batches
        /\ n' = n + 1 /\ fly' = n + 1 /\ written' = 0
        /\ UNCHANGED <<disk, tail, head, db, acked, lost, up, crashes, recovering>>
Write == /\ up /\ fly # 0 /\ written < Parts
         /\ written' = written + 1 /\ tail' = Append(tail, <<fly, written + 1>>)
         /\ UNCHANGED <<disk, head, db, acked, fly, lost, up, n, crashes, recovering>>
Sync == /\ up /\ tail # <<>> /\ disk' = disk \o tail /\ tail' = <<>>
        /\ UNCHANGED <<head, db, acked, fly, lost, written, up, n, crashes, recovering>>
Return == /\ up /\ fly # 0 /\ written = Parts /\ (tail = <<>> \/ Variant = "nosync")
          /\ acked' = acked \cup {fly} /\ fly' = 0
          /\ db' = db \o [i \in 1 .. Parts |-> <<fly, i>>]
          /\ UNCHANGED <<disk, tail, head, lost, written, up, n, crashes, recovering>>
\* a clean close writes the tables
Close == /\ up /\ fly = 0 /\ tail = <<>> /\ head # Len(disk) /\ head' = Len(disk)
         /\ UNCHANGED <<disk, tail, db, acked, fly, lost, written, up, n, crashes, recovering>>
Crash == /\ crashes < Crashes
         /\ \E i \in 0 .. Len(tail), torn \in BOOLEAN :
              /\ torn => i < Len(tail)
              /\ disk' = disk \o SubSeq(tail, 1, i) \o (IF torn THEN <<Torn>> ELSE <<>>)
         /\ tail' = <<>> /\ up' = FALSE /\ crashes' = crashes + 1 /\ recovering' = FALSE
         /\ lost' = lost \cup (IF fly = 0 THEN {} ELSE {fly}) /\ fly' = 0 /\ written' = 0
         /\ UNCHANGED <<head, db, acked, n>>

Good(i) == \A j \in 1 .. i : disk[j] # Torn
\* how far the log is replayed: complete batches only
Whole(i) == i = 0 \/ disk[i][2] = Parts
End == IF Variant = "head" /\ head < Len(disk) /\ disk[head + 1] = Torn THEN 0
       ELSE CHOOSE i \in 0 .. Len(disk) :
              /\ Good(i) /\ (Whole(i) \/ Variant = "half")
              /\ \A j \in i + 1 .. Len(disk) : ~ (Good(j) /\ (Whole(j) \/ Variant = "half"))
Replay == /\ ~ up /\ ~ recovering /\ recovering' = TRUE
          /\ db' = SubSeq(disk, 1, End)
          /\ UNCHANGED <<disk, tail, head, acked, fly, lost, written, up, n, crashes>>
Cut == /\ ~ up /\ recovering /\ up' = TRUE /\ recovering' = FALSE
       /\ disk' = IF Variant = "nocut" THEN disk ELSE SubSeq(disk, 1, End)
       /\ head' = IF head < End THEN head ELSE End
       /\ UNCHANGED <<tail, db, acked, fly, lost, written, n, crashes>>
Next == Call \/ Write \/ Sync \/ Return \/ Close \/ Crash \/ Replay \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Replay) /\ WF_vars(Cut)

-----------------------------------------------------------------------------
In(b) == {i \in DOMAIN db : db[i][1] = b}
Present(b) == In(b) # {}
\* Durable: everything acknowledged, of a batch in flight everything or nothing
Kept == up => \A b \in acked : Cardinality(In(b)) = Parts
WholeOrNot == up => \A b \in lost : Cardinality(In(b)) \in {0, Parts}
Nothing == up => \A i \in DOMAIN db : db[i][1] \in acked \cup lost
InOrder == up => \A i, j \in DOMAIN db : i < j => db[i][1] <= db[j][1]
Recovers == ~ up ~> up
=============================================================================
