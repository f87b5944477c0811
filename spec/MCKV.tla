-------------------------------- MODULE MCKV --------------------------------
(***************************************************************************)
(* KV within small constants: every behaviour is enumerated, what the      *)
(* actions of KV promise is checked in terms other than their own, and     *)
(* with SCRIPTS every transition is written out as the shortest sequence   *)
(* of calls leading to and through it, for the harness to make on the real *)
(* stores.                                                                 *)
(***************************************************************************)
EXTENDS KV, Json, IOUtils, CSV

CONSTANTS Keys, Values, Opnds, \* what batches are made of
          MaxOps,                 \* operations per batch
          MaxVal,                 \* length of the values (hex digits)
          MaxDb,                  \* entries of the store
          NBatches, NReaders, NIters,
          Windows, Targets,       \* of iterators
          Calls,                  \* the names of the calls enumerated
          EmitOn                  \* those which scripts end with

VARIABLES hist,  \* the calls made so far
          shown, \* iterator -> the keys shown since it was opened or sought
          low    \* iterator -> the target last sought, or NoLow
mvars == <<vars, hist, shown, low>>

NoLow == <<256>>
View == <<db, snap, iter, batch, mode, shown, low>>

MInit == Init /\ hist = <<>> /\ shown = <<>> /\ low = <<>>

Do(e) == hist' = Append(hist, e)
Quiet == UNCHANGED <<shown, low>>
On(c) == c \in Calls
Free(S, n) == {x \in 1 .. n : x \notin DOMAIN S /\ \A y \in 1 .. x - 1 : y \in DOMAIN S}
\* what the iterator shows after a step
See(i, s) == shown' = [shown EXCEPT ![i] = IF iter'[i].ok THEN Append(s, iter'[i].k) ELSE s]
Ops(b) == batch[b]
KeyLists == UNION {[1 .. n -> Keys] : n \in 0 .. 3}
Room(b) == b \in DOMAIN batch /\ Len(batch[b]) < MaxOps

MNext ==
  \/ On("batch") /\ \E b \in Free(batch, NBatches) : NewBatch(b) /\ Quiet /\ Do([op |-> "batch", b |-> b])
  \/ On("set") /\ \E b \in DOMAIN batch, k \in Keys, v \in Values :
       Room(b) /\ k \notin MergeKeys(Ops(b)) /\ Set(b, k, v) /\ Quiet /\ Do([op |-> "set", b |-> b, k |-> k, v |-> v])
  \/ On("del") /\ \E b \in DOMAIN batch, k \in Keys :
       Room(b) /\ k \notin MergeKeys(Ops(b)) /\ Del(b, k) /\ Quiet /\ Do([op |-> "del", b |-> b, k |-> k])
  \/ On("merge") /\ \E b \in DOMAIN batch, k \in Keys, v \in Opnds :
       Room(b) /\ k \notin PlainKeys(Ops(b)) /\ Merge(b, k, v) /\ Quiet /\ Do([op |-> "merge", b |-> b, k |-> k, v |-> v])
  \/ On("reset") /\ \E b \in DOMAIN batch : Ops(b) # <<>> /\ Reset(b) /\ Quiet /\ Do([op |-> "reset", b |-> b])
  \/ On("exec") /\ \E b \in DOMAIN batch :
       Ops(b) # <<>> /\ Exec(b, ~ MustFail(Ops(b))) /\ Quiet /\ Do([op |-> "exec", b |-> b])
  \/ On("cbatch") /\ \E b \in DOMAIN batch : CloseBatch(b) /\ Quiet /\ Do([op |-> "cbatch", b |-> b])
  \/ On("reader") /\ \E r \in Free(snap, NReaders) : OpenReader(r, TRUE) /\ Quiet /\ Do([op |-> "reader", r |-> r])
  \/ On("creader") /\ \E r \in DOMAIN snap :
       (\A i \in DOMAIN iter : iter[i].r # r) /\ CloseReader(r) /\ Quiet /\ Do([op |-> "creader", r |-> r])
  \/ On("iter") /\ \E i \in Free(iter, NIters), r \in DOMAIN snap, w \in Windows :
       /\ OpenIter(i, r, w)
       /\ shown' = (i :> IF iter'[i].ok THEN <<iter'[i].k>> ELSE <<>>) @@ shown
       /\ low' = (i :> NoLow) @@ low
       /\ Do([op |-> "iter", i |-> i, r |-> r, w |-> w])
  \/ On("seek") /\ \E i \in DOMAIN iter, t \in Targets :
       Seek(i, t) /\ See(i, <<>>) /\ low' = [low EXCEPT ![i] = t] /\ Do([op |-> "seek", i |-> i, k |-> t])
  \/ On("next") /\ \E i \in DOMAIN iter : Next1(i) /\ See(i, shown[i]) /\ UNCHANGED low /\ Do([op |-> "next", i |-> i])
  \/ On("citer") /\ \E i \in DOMAIN iter :
       CloseIter(i) /\ shown' = Drop(shown, i) /\ low' = Drop(low, i) /\ Do([op |-> "citer", i |-> i])
  \/ On("mget") /\ \E r \in DOMAIN snap, ks \in KeyLists :
       MultiGet(r, ks, TRUE, [i \in DOMAIN ks |-> Val(snap[r], ks[i])]) /\ Quiet /\ Do([op |-> "mget", r |-> r, ks |-> ks])
  \/ On("compact") /\ Compact(TRUE) /\ Quiet /\ Do([op |-> "compact"])
  \/ On("reopen") /\ Reopen(TRUE) /\ Quiet /\ Do([op |-> "reopen"])
MSpec == MInit /\ [][MNext]_mvars

Small == /\ \A k \in DOMAIN db : Len(db[k]) <= MaxVal
         /\ Cardinality(DOMAIN db) <= MaxDb

\* the scripts (an action constraint: evaluated for every transition)
Emit == \/ "SCRIPTS" \notin DOMAIN IOEnv
        \/ hist'[Len(hist')].op \notin EmitOn
        \/ CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.SCRIPTS)

-----------------------------------------------------------------------------
(* What is checked.                                                        *)
TypeOK == /\ \A k \in DOMAIN db : k \in Keys /\ db[k] # Absent
          /\ \A i \in DOMAIN iter : iter[i].r \in DOMAIN snap
          /\ \A b \in DOMAIN batch : Pure(batch[b])

LastCall == hist'[Len(hist')]
Is(op) == hist' # hist /\ LastCall.op = op
\* C01, C02, C03: what an execution does to each key, said per key
LastOf(ops, k) == LET I == {i \in DOMAIN ops : ops[i].k = k} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : j <= i
AfterExec(ops, k) ==
  LET i == LastOf(ops, k)
  IN IF MustFail(ops) \/ i = 0 THEN Val(db, k)
     ELSE CASE ops[i].t = "set" -> ops[i].v
            [] ops[i].t = "del" -> Absent
            [] OTHER -> Full(k, Val(db, k), Operands(ops, k))
ExecExact == [][Is("exec") => \A k \in Keys : Val(db', k) = AfterExec(batch[LastCall.b], k)]_mvars
\* nothing but executions and compactions changes the contents
OnlyExec == [][Is("exec") \/ Is("compact") \/ db' = db]_mvars
\* C04: open readers are frozen, and opened on what is there
Frozen == [][\A r \in DOMAIN snap \cap DOMAIN snap' : snap'[r] = snap[r]]_mvars
OpenedNow == [][\A r \in DOMAIN snap' \ DOMAIN snap : snap'[r] = db]_mvars
\* C05: an iterator has shown exactly the keys of its window since it was
\* opened or sought, each once, ascending; it is valid while one remains
IterExact ==
  \A i \in DOMAIN iter :
    LET m == snap[iter[i].r]
        W == {k \in DOMAIN m : In(k, iter[i].w) /\ (low[i] = NoLow \/ Le(low[i], k))}
    IN /\ {shown[i][j] : j \in DOMAIN shown[i]} = {k \in W : ~ iter[i].ok \/ Le(k, iter[i].k)}
       /\ \A j \in DOMAIN shown[i] : j > 1 => Lt(shown[i][j-1], shown[i][j])
\* C10: compaction
CompactExact == [][Is("compact") => /\ DOMAIN db' = {k \in DOMAIN db : ~ (HasPrefix(k, <<100>>) /\ db[k] = "00")}
                                    /\ \A k \in DOMAIN db' : db'[k] = db[k]]_mvars
CompactTwice == Compacted(Compacted(db)) = Compacted(db)
\* C03: folding operands early, as PartialMerge does, changes no full merge
Folds(os) == {SubSeq(os, 1, i - 1) \o <<f>> \o SubSeq(os, i + 2, Len(os)) : <<i, f>> \in
               {<<j, IF Len(os[j+1]) >= 2 /\ SubSeq(os[j+1], 1, 2) = "21" THEN os[j+1] ELSE os[j] \o "7c" \o os[j+1]>> :
                j \in 1 .. Len(os) - 1}}
FoldsAgree ==
  \A k \in Keys, ex \in {Absent} \cup Values, n \in 1 .. 3 :
    \A os \in [1 .. n -> Opnds \ {Poison}] :
      \A f \in Folds(os) : Full(k, ex, f) = Full(k, ex, os) /\ \A g \in Folds(f) : Full(k, ex, g) = Full(k, ex, os)
ASSUME FoldsAgree
=============================================================================
