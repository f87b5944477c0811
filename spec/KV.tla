-------------------------------- MODULE KV ---------------------------------
(***************************************************************************)
(* The key-value store every oureadb backend promises to be.               *)
(*                                                                         *)
(* One action per public call.  An action takes the arguments of the call  *)
(* and its result, and is enabled exactly when the store may answer that   *)
(* result: so the same actions generate behaviours (MCKV, KVGen) and       *)
(* decide recorded ones (KVTrace).                                         *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC

VARIABLES db,     \* committed contents: key -> value (hex string)
          snap,   \* open readers: id -> contents frozen when it was opened
          iter,   \* open iterators: id -> [r, w (window), ok, k (position)]
          batch,  \* batches: id -> sequence of pending operations
          held,   \* values returned by Get and kept by the caller
          mode    \* "rw", "ro" (opened read only), "null" (the null store), "closed"

vars == <<db, snap, iter, batch, held, mode>>

Absent == "nil"
Poison == "fa11"          \* an operand on which the merge operator fails

Empty == [k \in {} |-> ""]
Val(m, k) == IF k \in DOMAIN m THEN m[k] ELSE Absent
Drop(f, x) == [y \in DOMAIN f \ {x} |-> f[y]]

-----------------------------------------------------------------------------
(* The merge operator of the harness: order sensitive, records whether the *)
(* key existed, its key, and every operand since the last one starting     *)
(* with an exclamation mark, which discards those before it.               *)
RECURSIVE Join(_, _)
Join(vs, i) == IF i > Len(vs) THEN ""
               ELSE (IF i = 1 THEN vs[i] ELSE "7c" \o vs[i]) \o Join(vs, i + 1)
Full(k, ex, operands) ==
  LET D == {i \in DOMAIN operands : Len(operands[i]) >= 2 /\ SubSeq(operands[i], 1, 2) = "21"}
      from == IF D = {} THEN 1 ELSE CHOOSE i \in D : \A j \in D : j <= i
  IN (IF ex = Absent THEN "00" ELSE "01" \o ex) \o "3c" \o Hex(k) \o "3e"
     \o Join(SubSeq(operands, from, Len(operands)), 1)

-----------------------------------------------------------------------------
(* Batches: an operation is [t |-> "set"/"del"/"merge", k, v].             *)
MergeKeys(ops) == {ops[i].k : i \in {j \in DOMAIN ops : ops[j].t = "merge"}}
PlainKeys(ops) == {ops[i].k : i \in {j \in DOMAIN ops : ops[j].t # "merge"}}
Operands(ops, k) ==
  LET s == SelectSeq(ops, LAMBDA o : o.t = "merge" /\ o.k = k)
  IN [i \in DOMAIN s |-> s[i].v]

\* merges see the contents before the batch
Merged(m, ops) ==
  LET mk == MergeKeys(ops)
  IN IF mk = {} THEN m
     ELSE [k \in DOMAIN m \cup mk |->
             IF k \in mk THEN Full(k, Val(m, k), Operands(ops, k)) ELSE m[k]]

\* sets and deletes: the last operation on a key wins
RECURSIVE PlainFrom(_, _, _)
PlainFrom(m, ops, i) ==
  IF i > Len(ops) THEN m
  ELSE PlainFrom(CASE ops[i].t = "set" -> (ops[i].k :> ops[i].v) @@ m
                   [] ops[i].t = "del" -> Drop(m, ops[i].k)
                   [] OTHER -> m, ops, i + 1)
Apply(m, ops) == PlainFrom(Merged(m, ops), ops, 1)

\* no key is both merged and set or deleted: the batches the contract orders
Pure(ops) == MergeKeys(ops) \cap PlainKeys(ops) = {}

MustFail(ops) == \E i \in DOMAIN ops : ops[i].t = "merge" /\ ops[i].v = Poison
\* an operation a backend is free to refuse (its key or size is out of the
\* limits of the engine); the harness marks it
Refusable(ops) == \E i \in DOMAIN ops : "odd" \in DOMAIN ops[i]
MayFail(ops) == MustFail(ops) \/ Refusable(ops)

-----------------------------------------------------------------------------
(* Windows and positions                                                   *)
PrefixW(p) == [t |-> "prefix", p |-> p]
RangeW(s, sn, e, en) == [t |-> "range", s |-> s, sn |-> sn, e |-> e, en |-> en]
In(k, w) == IF w.t = "prefix" THEN HasPrefix(k, w.p)
            ELSE (w.sn \/ Le(w.s, k)) /\ (w.en \/ Lt(k, w.e))
\* position at the first key of the window satisfying P, if any
At(m, w, P(_)) ==
  LET S == {k \in DOMAIN m : In(k, w) /\ P(k)}
  IN IF S = {} THEN [ok |-> FALSE, k |-> <<>>] ELSE [ok |-> TRUE, k |-> First(S)]
Begin(m, w) == At(m, w, LAMBDA k : TRUE)
SeekPos(m, w, t) == At(m, w, LAMBDA k : Le(t, k))
NextPos(m, w, c) == At(m, w, LAMBDA k : Lt(c, k))

-----------------------------------------------------------------------------
InitIn(m) == /\ db = Empty /\ snap = <<>> /\ iter = <<>> /\ batch = <<>>
             /\ held = <<>> /\ mode = m
Init == InitIn("rw")

NewBatch(b) == /\ batch' = (b :> <<>>) @@ batch
               /\ UNCHANGED <<db, snap, iter, held, mode>>
Add(b, o) == /\ b \in DOMAIN batch
             /\ batch' = [batch EXCEPT ![b] = Append(@, o)]
             /\ UNCHANGED <<db, snap, iter, held, mode>>
Set(b, k, v)   == Add(b, [t |-> "set", k |-> k, v |-> v])
Del(b, k)      == Add(b, [t |-> "del", k |-> k])
Merge(b, k, v) == Add(b, [t |-> "merge", k |-> k, v |-> v])
\* many operations at once: a sequence of <<type, key, value>>
AddAll(b, os) ==
  /\ b \in DOMAIN batch
  /\ batch' = [batch EXCEPT ![b] =
                 @ \o [i \in DOMAIN os |-> [t |-> os[i][1], k |-> os[i][2], v |-> os[i][3]]]]
  /\ UNCHANGED <<db, snap, iter, held, mode>>
Reset(b) == /\ b \in DOMAIN batch
            /\ batch' = [batch EXCEPT ![b] = <<>>]
            /\ UNCHANGED <<db, snap, iter, held, mode>>

\* a batch takes effect completely, or it fails and has no effect
Exec(b, ok) ==
  /\ b \in DOMAIN batch
  /\ \/ ok /\ mode = "rw" /\ ~ MustFail(batch[b]) /\ db' = Apply(db, batch[b])
     \/ ok /\ mode = "null" /\ db' = db   \* the null store keeps nothing
     \/ ok /\ mode \in {"ro", "closed"} /\ batch[b] = <<>> /\ db' = db   \* nothing to refuse
     \/ ~ ok /\ mode # "null" /\ (MayFail(batch[b]) \/ mode # "rw") /\ db' = db
  /\ UNCHANGED <<snap, iter, batch, held, mode>>
\* a batch made by another kind of store is refused
ExecForeign(ok) == ~ ok /\ UNCHANGED vars
CloseBatch(b) == /\ b \in DOMAIN batch /\ batch' = Drop(batch, b)
                 /\ UNCHANGED <<db, snap, iter, held, mode>>

OpenReader(r, ok) ==
  /\ ok /\ mode # "closed"
  /\ snap' = (r :> db) @@ snap /\ UNCHANGED <<db, iter, batch, held, mode>>
CloseReader(r) == /\ r \in DOMAIN snap /\ snap' = Drop(snap, r)
                  /\ UNCHANGED <<db, iter, batch, held, mode>>
Get(r, k, v, h) ==
  /\ r \in DOMAIN snap /\ v = Val(snap[r], k)
  /\ held' = IF h = 0 THEN held ELSE (h :> v) @@ held
  /\ UNCHANGED <<db, snap, iter, batch, mode>>
MultiGet(r, ks, ok, vs) ==
  /\ r \in DOMAIN snap /\ ok
  /\ Len(vs) = Len(ks) /\ (\A i \in DOMAIN ks : vs[i] = Val(snap[r], ks[i])) = TRUE
  /\ UNCHANGED vars
\* the bytes of an earlier Get, looked at again
Held(h, v) == /\ h \in DOMAIN held /\ v = held[h] /\ UNCHANGED vars
\* everything a reader shows, in order, unbounded iterator to the end
Scan(r, kv) ==
  /\ r \in DOMAIN snap
  /\ Len(kv) = Cardinality(DOMAIN snap[r])
  /\ (\A i \in DOMAIN kv : /\ Val(snap[r], kv[i][1]) = kv[i][2]
                           /\ i > 1 => Lt(kv[i-1][1], kv[i][1])) = TRUE
  /\ UNCHANGED vars

OpenIter(i, r, w) ==
  /\ r \in DOMAIN snap
  /\ LET c == Begin(snap[r], w)
     IN iter' = (i :> [r |-> r, w |-> w, ok |-> c.ok, k |-> c.k]) @@ iter
  /\ UNCHANGED <<db, snap, batch, held, mode>>
Move(i, c) == /\ iter' = [iter EXCEPT ![i].ok = c.ok, ![i].k = c.k]
              /\ UNCHANGED <<db, snap, batch, held, mode>>
Seek(i, t) == /\ i \in DOMAIN iter /\ iter[i].r \in DOMAIN snap
              /\ Move(i, SeekPos(snap[iter[i].r], iter[i].w, t))
Next1(i) == /\ i \in DOMAIN iter /\ iter[i].r \in DOMAIN snap /\ iter[i].ok
            /\ Move(i, NextPos(snap[iter[i].r], iter[i].w, iter[i].k))
Current(i, ok, k, v) ==
  /\ i \in DOMAIN iter /\ iter[i].r \in DOMAIN snap
  /\ ok = iter[i].ok
  /\ ok => k = iter[i].k /\ v = Val(snap[iter[i].r], k)
  /\ UNCHANGED vars
CloseIter(i) == /\ i \in DOMAIN iter /\ iter' = Drop(iter, i)
                /\ UNCHANGED <<db, snap, batch, held, mode>>

\* compaction drops the dictionary entries whose count is zero
Zero(m, k) == k # <<>> /\ k[1] = 100 /\ m[k] = "00"
Compacted(m) == [k \in {x \in DOMAIN m : ~ Zero(m, x)} |-> m[k]]
Compact(ok) == /\ ok /\ mode = "rw" /\ db' = Compacted(db)
               /\ UNCHANGED <<snap, iter, batch, held, mode>>

\* a clean close (all readers closed first) and reopen keep the contents
Reopen(ok) == /\ ok /\ snap = <<>> /\ iter = <<>>
              /\ batch' = <<>> /\ mode' = "rw"
              /\ UNCHANGED <<db, snap, iter, held>>
=============================================================================
