--------------------------- MODULE ImplIndexConc ----------------------------
(***************************************************************************)
(* How several threads index and query, step by step: entries are put in a *)
(* batch one by one and executed as one; a query opens a reader for each   *)
(* of its cells, one after the other.  IndexConc watches: whatever returns *)
(* must be explained.                                                      *)
(*                                                                         *)
(*   whole   one batch for an object, a reader for every lookup            *)
(* and, refuted by the checks, what must not be:                           *)
(*   percell  a batch for every cell                                       *)
(*   buffer   keys made in a buffer of the index, which threads share      *)
(*   kept     a reader kept for the lookups to come                        *)
(***************************************************************************)
EXTENDS IndexConc, Sequences

CONSTANTS Way, Objects, Writers, Askers, Questions
\* Objects: thread -> [id, cover]; Questions: the lookups an asker may make

VARIABLES store,  \* entries <<cell, id>>
          pc, todo, keys, buf, \* of a writer: cells still to do; the batch; the shared buffer
          q, guess, got, left, kept, asked,
          bad
ivars == <<cvars, store, pc, todo, keys, buf, q, guess, got, left, kept, asked, bad>>

Threads == Writers \cup Askers
None == <<>>
Listed(S) == CHOOSE f \in [1 .. Cardinality(S) -> S] : Set(f) = S
IInit == /\ kind = ("x" :> "flat") /\ ents = <<>>
         /\ confs = {[in |-> {}, th |-> [t \in Threads |-> Idle]]}
         /\ store = {} /\ pc = [t \in Threads |-> "idle"]
         /\ todo = [t \in Writers |-> Objects[t].cover] /\ keys = [t \in Writers |-> {}] /\ buf = None
         /\ q = [t \in Askers |-> None] /\ guess = [t \in Askers |-> {}] /\ got = [t \in Askers |-> {}]
         /\ left = [t \in Askers |-> {}] /\ kept = None /\ asked = [t \in Askers |-> 0]
         /\ bad = FALSE
Asking == UNCHANGED <<q, guess, got, left, kept, asked>>
Writing == UNCHANGED <<todo, keys, buf>>

Start(t) ==
  /\ pc[t] = "idle" /\ todo[t] # {}
  /\ Call(t, t, "x", Objects[t].id, <<>>, Objects[t].cover)
  /\ pc' = [pc EXCEPT ![t] = "add"] /\ UNCHANGED <<store, bad>> /\ Writing /\ Asking
\* the key of a cell is made ...
Make(t) ==
  /\ pc[t] = "add" /\ todo[t] # {}
  /\ \E c \in todo[t] : buf' = (IF Way = "buffer" THEN <<c>> ELSE buf)
       /\ todo' = [todo EXCEPT ![t] = @ \ {c}]
       /\ keys' = [keys EXCEPT ![t] = @ \cup {IF Way = "buffer" THEN <<"buf">> ELSE c}]
  /\ pc' = [pc EXCEPT ![t] = IF Way \in {"percell", "buffer"} THEN "put" ELSE "add"]
  /\ UNCHANGED <<cvars, store, bad>> /\ Asking
\* ... and put: into the store, or what the shared buffer holds into the batch
Put1(t) ==
  /\ pc[t] = "put"
  /\ IF Way = "percell"
     THEN store' = store \cup {<<c, Objects[t].id>> : c \in keys[t]} /\ keys' = [keys EXCEPT ![t] = {}]
     ELSE keys' = [keys EXCEPT ![t] = (@ \ {<<"buf">>}) \cup {buf[1]}] /\ UNCHANGED store
  /\ pc' = [pc EXCEPT ![t] = "add"]
  /\ UNCHANGED <<cvars, todo, buf, bad>> /\ Asking
Exec(t) ==
  /\ pc[t] = "add" /\ todo[t] = {}
  /\ store' = store \cup {<<c, Objects[t].id>> : c \in keys[t]}
  /\ pc' = [pc EXCEPT ![t] = "ret"]
  /\ UNCHANGED <<cvars, bad>> /\ Writing /\ Asking
Return(t) ==
  /\ pc[t] = "ret"
  /\ LET cs == RetConfs(t) IN bad' = (bad \/ cs = {}) /\ confs' = Put(cs, t, Idle)
  /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<kind, ents, store>> /\ Writing /\ Asking

\* the answer is guessed, as IndexConc is told it with the call; runs with a
\* wrong guess end
Ask(t) ==
  /\ pc[t] = "idle" /\ asked[t] < 2
  /\ \E cs \in Questions, ids \in SUBSET {Objects[u].id : u \in Writers} :
       LET query == [x |-> "x", what |-> IF Cardinality(cs) = 1 THEN "one" ELSE "many",
                     cs |-> Listed(cs), from |-> <<>>, to |-> <<>>]
       IN /\ AskCall(t, query, Listed(ids))
          /\ q' = [q EXCEPT ![t] = query.cs] /\ guess' = [guess EXCEPT ![t] = ids]
          /\ left' = [left EXCEPT ![t] = cs] /\ got' = [got EXCEPT ![t] = {}]
  /\ asked' = [asked EXCEPT ![t] = @ + 1]
  /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<store, kept, bad>> /\ Writing
Look(t) ==
  /\ pc[t] = "look" /\ left[t] # {}
  /\ \E c \in left[t] :
       LET shown == IF Way = "kept" /\ kept # None THEN kept[1] ELSE store
       IN /\ got' = [got EXCEPT ![t] = @ \cup {e[2] : e \in {s \in shown : s[1] = c}}]
          /\ left' = [left EXCEPT ![t] = @ \ {c}]
          /\ kept' = (IF Way = "kept" THEN <<shown>> ELSE kept)
  /\ UNCHANGED <<cvars, store, pc, q, guess, asked, bad>> /\ Writing
Told(t) ==
  /\ pc[t] = "look" /\ left[t] = {} /\ got[t] = guess[t]
  /\ LET cs == AskConfs(t, Listed(got[t])) IN bad' = (bad \/ cs = {}) /\ confs' = Put(cs, t, Idle)
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ UNCHANGED <<kind, ents, store, q, guess, got, left, kept, asked>> /\ Writing
INext == \/ \E t \in Writers : Start(t) \/ Make(t) \/ Put1(t) \/ Exec(t) \/ Return(t)
         \/ \E t \in Askers : Ask(t) \/ Look(t) \/ Told(t)
ISpec == IInit /\ [][INext]_ivars
-----------------------------------------------------------------------------
Explained == ~ bad
A == <<0, 1>>
B == <<0, 2>>
W == {1, 2}
R == {3, 4}
Os == (1 :> [id |-> "o1", cover |-> {A, B}]) @@ (2 :> [id |-> "o2", cover |-> {B}])
Qs == {{A}, {B}, {A, B}}
=============================================================================
