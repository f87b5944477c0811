------------------------------- MODULE MCLife -------------------------------
(***************************************************************************)
(* Lifecycle within small constants: every sequence of openings with every *)
(* combination of options, uses and closings, up to what the state tells   *)
(* apart; written out as scripts, as in MCKV.                              *)
(***************************************************************************)
EXTENDS Lifecycle, Json, IOUtils, CSV

CONSTANTS Kind, Paths, Buckets, Tri, Vals, Emitted

VARIABLES hist, put  \* place -> the value last stored there
mvars == <<lvars, hist, put>>
View == <<db, mode, disk, made, touched, blocked, cur, put>>

MInit == LInit(Kind) /\ hist = <<>> /\ put = <<>>
Do(e) == hist' = Append(hist, e)
Key == <<1>>
Opts == [path : Paths \cup {0}, bucket : Buckets, ro : BOOLEAN, cim : Tri, eie : Tri]

MNext ==
  \/ \E o \in Opts, ok \in BOOLEAN : Open(o, ok) /\ Do([op |-> "open", o |-> o]) /\ UNCHANGED put
  \/ Close(TRUE) /\ Do([op |-> "close"]) /\ UNCHANGED put
  \/ mode # "closed" /\ \E v \in Vals :
       /\ db' = IF mode = "rw" THEN Apply(db, <<[t |-> "set", k |-> Key, v |-> v]>>) ELSE db
       /\ put' = IF mode = "rw" THEN (Place(cur) :> v) @@ put ELSE put
       /\ Do([op |-> "put", v |-> v])
       /\ UNCHANGED <<snap, iter, batch, held, mode, kind, disk, made, touched, blocked, cur>>
  \/ mode = "closed" /\ hist # <<>> /\ \E w \in {"reader", "batch"} : Do([op |-> "stale", w |-> w]) /\ UNCHANGED <<lvars, put>>
  \/ mode = "closed" /\ \E p \in Paths :
       \/ Block(p) /\ p \notin blocked \cup touched /\ Do([op |-> "block", p |-> p]) /\ UNCHANGED put
       \/ Unblock(p) /\ Do([op |-> "unblock", p |-> p]) /\ UNCHANGED put
MSpec == MInit /\ [][MNext]_mvars

Emit == \/ "SCRIPTS" \notin DOMAIN IOEnv
        \/ hist'[Len(hist')].op \notin Emitted
        \/ CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.SCRIPTS)

-----------------------------------------------------------------------------
Expected(pl) == IF pl \in DOMAIN put THEN Key :> put[pl] ELSE Empty
\* every path and bucket holds what was last stored there and nothing else
Isolated == /\ \A pl \in DOMAIN disk : mode = "closed" \/ pl # Place(cur) => disk[pl] = Expected(pl)
            /\ mode # "closed" => db = Expected(Place(cur))
\* nothing changes in a store opened read only, nor by a refused opening
ReadOnlyKeeps == [][mode = "ro" => (put' = put /\ disk' = disk)]_mvars
RefusedKeeps == [][(mode = "closed" /\ mode' = "closed") => (disk' = disk /\ made' = made)]_mvars
\* a usable path, not blocked and without contradicting options, opens
Usable == (mode = "closed") =>
  \A o \in Opts : (o.path \notin blocked \cup {0} /\ ~ o.ro /\ o.cim # "false" /\ o.eie # "true" /\ o.bucket # "") => ~ MayRefuse(o)
=============================================================================
