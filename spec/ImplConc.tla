------------------------------ MODULE ImplConc ------------------------------
(***************************************************************************)
(* How the backends execute batches concurrently, step by step: take the   *)
(* lock or begin a transaction, read the values the merges start from, one *)
(* key after the other, fold the operands, apply the sets and deletes to a *)
(* private copy, publish it.  Checked: every publication is the execution  *)
(* of one whole batch on the contents of that instant (the hidden instant  *)
(* of Conc), each batch that returns success published exactly once, one   *)
(* that fails never.                                                       *)
(*                                                                         *)
(*   lock        bolt (write transaction), gtreap and goleveldb (mutex)    *)
(*   optimistic  badger: a commit fails if a key it read was written since *)
(* and, refuted by the checks, what must not be:                           *)
(*   nolock      goleveldb before its mutex                                *)
(*   lockmerges  the mutex only taken by batches with merges               *)
(*   blind       badger without the reads in the transaction               *)
(***************************************************************************)
EXTENDS KV

CONSTANTS Engine, Threads, Batches

VARIABLES pc, ops, base, ts, lock, ver, now, pub, result
cvars == <<vars, pc, ops, base, ts, lock, ver, now, pub, result>>
\* pc: what each thread does; base: what its merges read; ts: when its
\* transaction began; lock: who holds it; ver: when a key was last written;
\* now: publications so far; pub: how often each thread's batch was published

CInit == /\ Init /\ pc = [t \in Threads |-> "idle"] /\ ops = [t \in Threads |-> <<>>]
         /\ base = [t \in Threads |-> <<>>] /\ ts = [t \in Threads |-> 0] /\ lock = 0
         /\ ver = <<>> /\ now = 0 /\ pub = [t \in Threads |-> 0]
         /\ result = [t \in Threads |-> "none"]

Rest == UNCHANGED <<snap, iter, batch, held, mode>>
Locks(t) == \/ Engine = "lock"
            \/ Engine = "lockmerges" /\ MergeKeys(ops[t]) # {}

Call(t) == /\ pc[t] = "idle" /\ result[t] = "none"
           /\ \E b \in Batches : ops' = [ops EXCEPT ![t] = b]
           /\ pc' = [pc EXCEPT ![t] = "begin"]
           /\ UNCHANGED <<db, base, ts, lock, ver, now, pub, result>> /\ Rest
Begin1(t) == /\ pc[t] = "begin"
             /\ Locks(t) => lock = 0
             /\ lock' = IF Locks(t) THEN t ELSE lock
             /\ ts' = [ts EXCEPT ![t] = now]
             /\ pc' = [pc EXCEPT ![t] = "read"]
             /\ UNCHANGED <<db, ops, base, ver, now, pub, result>> /\ Rest
Read(t) == /\ pc[t] = "read"
           /\ \E k \in MergeKeys(ops[t]) \ DOMAIN base[t] :
                /\ base' = [base EXCEPT ![t] = (k :> Val(db, k)) @@ @]
           /\ UNCHANGED <<db, pc, ops, ts, lock, ver, now, pub, result>> /\ Rest
\* the merges folded onto what was read, then the sets and deletes in order
Private(t) ==
  LET mk == MergeKeys(ops[t])
  IN PlainFrom([k \in DOMAIN db \cup mk |->
                  IF k \in mk THEN Full(k, base[t][k], Operands(ops[t], k)) ELSE db[k]], ops[t], 1)
Conflict(t) == \E k \in MergeKeys(ops[t]) : k \in DOMAIN ver /\ ver[k] > ts[t]
Publish(t) ==
  /\ pc[t] = "read" /\ DOMAIN base[t] = MergeKeys(ops[t])
  /\ lock' = IF lock = t THEN 0 ELSE lock
  /\ pc' = [pc EXCEPT ![t] = "idle"]
  /\ IF MustFail(ops[t]) \/ (Engine = "optimistic" /\ Conflict(t))
     THEN result' = [result EXCEPT ![t] = "error"] /\ UNCHANGED <<db, ver, now, pub>>
     ELSE /\ db' = Private(t)
          /\ now' = now + 1
          /\ ver' = [k \in MergeKeys(ops[t]) \cup PlainKeys(ops[t]) |-> now + 1] @@ ver
          /\ pub' = [pub EXCEPT ![t] = @ + 1]
          /\ result' = [result EXCEPT ![t] = "ok"]
  /\ UNCHANGED <<ops, base, ts>> /\ Rest
CNext == \E t \in Threads : Call(t) \/ Begin1(t) \/ Read(t) \/ Publish(t)
CSpec == CInit /\ [][CNext]_cvars /\ \A t \in Threads : WF_cvars(Begin1(t) \/ Read(t) \/ Publish(t))

-----------------------------------------------------------------------------
Atomic == [][db' # db => \E t \in Threads : pub'[t] = pub[t] + 1 /\ db' = Apply(db, ops[t])]_cvars
Once == \A t \in Threads : pub[t] = IF result[t] = "ok" THEN 1 ELSE 0
Returns == \A t \in Threads : pc[t] = "begin" ~> pc[t] = "idle"
\* the final contents are those of some order of the successful batches
AllIdle == \A t \in Threads : pc[t] = "idle"
Orders == {p \in [1 .. Cardinality(Threads) -> Threads] : \A i, j \in DOMAIN p : i # j => p[i] # p[j]}
RECURSIVE InOrder(_, _, _)
InOrder(m, p, i) == IF i > Len(p) THEN m
                    ELSE InOrder(IF result[p[i]] = "ok" THEN Apply(m, ops[p[i]]) ELSE m, p, i + 1)
Serial == AllIdle => \E p \in Orders : db = InOrder(Empty, p, 1)
\* without conflicts nothing fails but what must
NoSpurious == Engine = "optimistic" \/ \A t \in Threads : result[t] = "error" => MustFail(ops[t])
=============================================================================
