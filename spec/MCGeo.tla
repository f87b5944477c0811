-------------------------------- MODULE MCGeo -------------------------------
(***************************************************************************)
(* GeoIndex within small constants: every history of a few objects on a    *)
(* few indexes sharing a store is enumerated, what queries promise is      *)
(* checked against the calls made, and with SCRIPTS every one of them is   *)
(* written out for the harness to make on the real indexes, followed by    *)
(* all the questions.                                                      *)
(***************************************************************************)
EXTENDS GeoIndex, Json, IOUtils, CSV, SequencesExt

CONSTANTS Indexes,  \* name -> [kind, level, prefix]
          Covers,   \* name -> the covers of the objects indexed there
          Ids1,     \* the ids
          Times,    \* the times of the objects of time indexes
          Keys,     \* of unrelated data
          MaxEnt,   \* entries in the store
          Faults,   \* whether the store may fail
          Queries,  \* name -> cells looked up
          Several,  \* name -> lists of cells looked up together
          Windows   \* <<from, to>>

VARIABLES hist
mvars == <<gvars, hist>>
View == gvars

ASSUME \A x, y \in DOMAIN Indexes : x # y => ~ HasPrefix(Indexes[x].prefix, Indexes[y].prefix)

\* cells and times as the harness knows them
Pad(p, d) == p \o [i \in 1 .. 31 - Len(p) |-> d]
First0(p) == Pad(p, 0)
Last3(p) == Pad(p, 3)
T0 == <<32768, 0, 0, 0>>
TPlus == <<32768, 0, 0, 1>>
TMinus == <<32767, 65535, 65535, 65535>>
TMin == <<0, 0, 0, 0>>
TMax == <<65535, 65535, 65535, 65535>>

MInit == /\ idx = Indexes /\ ent = [x \in DOMAIN Indexes |-> {}]
         /\ smp = ent /\ odd = ent /\ data = <<>> /\ held = <<>> /\ hist = <<>>

Do(e) == hist' = Append(hist, e)
TimesOf(x) == IF idx[x].kind = "time" THEN Times ELSE {NoTime}
MNext ==
  \/ \E x \in DOMAIN idx, id \in Ids1 :
       \E c \in Covers[x], t \in TimesOf(x), f \in {FALSE} \cup (IF Faults THEN {TRUE} ELSE {}) :
         /\ Index(x, id, t, c, <<>>, <<>>, IF f THEN "must" ELSE "no", FALSE, TRUE, ~ f)
         /\ Do([op |-> "index", x |-> x, id |-> id, t |-> t, cover |-> c, fault |-> f])
  \/ \E k \in Keys, v \in {"", "61"} : Put(k, v) /\ Do([op |-> "put", k |-> k, v |-> v])
MSpec == MInit /\ [][MNext]_mvars

RECURSIVE Total(_)
Total(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN Cardinality(ent[x]) + Total(X \ {x})
Bound == Total(DOMAIN ent) <= MaxEnt

-----------------------------------------------------------------------------
(* What is checked.                                                        *)
Made(x) == {hist[i] : i \in {j \in DOMAIN hist : hist[j].op = "index" /\ hist[j].x = x /\ ~ hist[j].fault}}
\* C12, C13, C16, C18, C20: a cell returns exactly the ids of the objects
\* indexed in this index whose cover has a cell there, whatever else was
\* done to the store, calls that failed included
Finds(e, x, c) == \E i \in DOMAIN e.cover : IF idx[x].kind = "point" THEN HasPrefix(e.cover[i], c) ELSE e.cover[i] = c
Exact ==
  \A x \in DOMAIN idx : \A c \in Queries[x] :
    /\ Ids(EntriesAt(x, c)) = {e.id : e \in {f \in Made(x) : Finds(f, x, c)}}
    /\ idx[x].kind = "time" =>
         \A w \in Windows :
           Ids(Window(EntriesAt(x, c), w[1], w[2]))
             = {e.id : e \in {f \in Made(x) : Finds(f, x, c) /\ Le(f.t, w[1]) /\ ~ Le(f.t, w[2])}}
\* cells inside a cell return parts of what it returns, and nothing is lost
\* between them
Nested ==
  \A x \in {y \in DOMAIN idx : idx[y].kind = "point"} : \A c \in Queries[x] :
    Len(c) < 31 => EntriesAt(x, c) = UNION {EntriesAt(x, Append(c, d)) : d \in 0 .. 3}
\* windows following each other share nothing and lose nothing
Following ==
  \A x \in {y \in DOMAIN idx : idx[y].kind = "time"} : \A v, w \in Windows :
    v[2] = w[1] /\ Le(w[2], w[1]) /\ Le(v[2], v[1]) =>
      LET E == ent[x] IN /\ Window(E, v[1], w[2]) = Window(E, v[1], v[2]) \cup Window(E, w[1], w[2])
                         /\ Window(E, v[1], v[2]) \cap Window(E, w[1], w[2]) = {}
\* C18: data keys keep their values
DataKept ==
  \A k \in Keys :
    LET I == {i \in DOMAIN hist : hist[i].op = "put" /\ hist[i].k = k}
    IN (IF k \in DOMAIN data THEN data[k] ELSE "nil") = (IF I = {} THEN "nil" ELSE hist[CHOOSE i \in I : \A j \in I : j <= i].v)
\* C18, C20: a call changes the index it is made on alone, one that fails none
Alone == [][\A x \in DOMAIN idx :
              (hist' # hist /\ LET e == hist'[Len(hist')] IN e.op = "put" \/ e.x # x \/ e.fault)
                => ent'[x] = ent[x]]_mvars

-----------------------------------------------------------------------------
Asks ==
  SetToSeq(UNION {{[op |-> "atcell", x |-> x, c |-> c] : c \in Queries[x]} : x \in {y \in DOMAIN Indexes : Indexes[y].kind # "time"}})
  \o SetToSeq(UNION {{[op |-> "attime", x |-> x, c |-> c, from |-> w[1], to |-> w[2]] : c \in Queries[x], w \in Windows} :
                     x \in {y \in DOMAIN Indexes : Indexes[y].kind = "time"}})
  \o SetToSeq(UNION {{[op |-> "atcells", x |-> x, cs |-> cs, from |-> w[1], to |-> w[2]] : cs \in Several[x],
                      w \in IF Indexes[x].kind = "time" THEN Windows ELSE {<<NoTime, NoTime>>}} : x \in DOMAIN Indexes})
  \o SetToSeq({[op |-> "data", k |-> k] : k \in Keys})
Opens == SetToSeq({[op |-> "open", x |-> x, kind |-> Indexes[x].kind, level |-> Indexes[x].level, prefix |-> Indexes[x].prefix] : x \in DOMAIN Indexes})
ASSUME "SCRIPTS" \notin DOMAIN IOEnv \/ CSVWrite("%1$s", <<ToJson([opens |-> Opens, asks |-> Asks])>>, IOEnv.SCRIPTS)
Emit == "SCRIPTS" \notin DOMAIN IOEnv \/ CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.SCRIPTS)
=============================================================================
