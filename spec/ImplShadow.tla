---------------------------- MODULE ImplShadow ------------------------------
(***************************************************************************)
(* How bolt keeps the promise of Durable: a batch writes its pages beside  *)
(* those in use, syncs, writes the meta page that is not the last one,     *)
(* syncs, and is acknowledged.  A crash leaves of what was not synced any  *)
(* part, meta pages perhaps torn; recovery takes the latest meta page that *)
(* is whole.  Refuted: "onesync" (the pages are not synced before the meta *)
(* page), "onemeta" (one meta page only), "reuse" (pages of the state a    *)
(* crash may fall back to are used again), "nosync".                       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Batches, Crashes, Variant

VARIABLES page,   \* page number -> batch written there, synced; 0 none
          cache,  \* page number -> as the process sees it
          meta, mcache, \* meta 0/1 -> [tx, b, p]: transaction, batch, its page
          cur,    \* the meta record in force
          acked, fly, step, up, n, crashes, lost
vars == <<page, cache, meta, mcache, cur, acked, fly, step, up, n, crashes, lost>>

Pages == 1 .. 3
None == [tx |-> 0, b |-> 0, p |-> 0]
TornM == [tx |-> -1, b |-> -1, p |-> 0]
Tx == cur.tx + 1
Slot == IF Variant = "onemeta" THEN 0 ELSE Tx % 2
Init == /\ page = [p \in Pages |-> 0] /\ cache = page /\ meta = [i \in {0, 1} |-> None] /\ mcache = meta
        /\ cur = None /\ acked = 0 /\ fly = 0 /\ step = "idle" /\ up = TRUE /\ n = 0 /\ crashes = 0 /\ lost = 0

\* a free page: not the one of the state in force
FreePages == Pages \ (IF Variant = "reuse" THEN {} ELSE {cur.p})
Call == /\ up /\ step = "idle" /\ n < Batches /\ n' = n + 1 /\ fly' = n + 1 /\ step' = "pages"
        /\ UNCHANGED <<page, cache, meta, mcache, cur, acked, up, crashes, lost>>
WritePages == /\ step = "pages" /\ \E p \in FreePages :
                   cache' = [cache EXCEPT ![p] = fly] /\ step' = "sync"
              /\ UNCHANGED <<page, meta, mcache, cur, acked, fly, up, n, crashes, lost>>
Mine == CHOOSE p \in Pages : cache[p] = fly
SyncPages == /\ step = "sync" /\ step' = "meta"
             /\ page' = IF Variant \in {"onesync", "nosync"} THEN page ELSE cache
             /\ UNCHANGED <<cache, meta, mcache, cur, acked, fly, up, n, crashes, lost>>
WriteMeta == /\ step = "meta" /\ step' = "sync2"
             /\ mcache' = [mcache EXCEPT ![Slot] = [tx |-> Tx, b |-> fly, p |-> Mine]]
             /\ UNCHANGED <<page, cache, meta, cur, acked, fly, up, n, crashes, lost>>
SyncMeta == /\ step = "sync2" /\ step' = "return"
            /\ IF Variant = "nosync" THEN UNCHANGED <<page, meta>> ELSE page' = cache /\ meta' = mcache
            /\ UNCHANGED <<cache, mcache, cur, acked, fly, up, n, crashes, lost>>
Return == /\ step = "return" /\ step' = "idle" /\ cur' = mcache[Slot] /\ acked' = fly /\ fly' = 0
          /\ UNCHANGED <<page, cache, meta, mcache, up, n, crashes, lost>>
Crash == /\ up /\ crashes < Crashes /\ crashes' = crashes + 1
         /\ \E P \in SUBSET {p \in Pages : page[p] # cache[p]} :
              page' = [p \in Pages |-> IF p \in P THEN cache[p] ELSE page[p]]
         /\ \E m \in [{0, 1} -> {"new", "old", "torn"}] :
              meta' = [i \in {0, 1} |-> IF meta[i] = mcache[i] THEN meta[i]
                         ELSE CASE m[i] = "new" -> mcache[i] [] m[i] = "old" -> meta[i] [] OTHER -> TornM]
         /\ up' = FALSE /\ step' = "down" /\ lost' = fly /\ fly' = 0
         /\ UNCHANGED <<cache, mcache, cur, acked, n>>
Recover == /\ ~ up /\ up' = TRUE /\ step' = "idle"
           /\ cache' = page /\ mcache' = meta
           /\ cur' = IF meta[0].tx >= meta[1].tx THEN meta[0] ELSE meta[1]
           /\ acked' = cur'.b
           /\ UNCHANGED <<page, meta, fly, n, crashes, lost>>
Next == Call \/ WritePages \/ SyncPages \/ WriteMeta \/ SyncMeta \/ Return \/ Crash \/ Recover
Spec == Init /\ [][Next]_vars

\* recovery finds the last acknowledged batch or the one in flight at the crash
Durable == [][Recover => cur'.b \in {acked, lost}]_vars
\* the state in force has the pages it was committed with
Intact == up => (cur.b = 0 \/ (cur.b > 0 /\ cur.p # 0 /\ cache[cur.p] = cur.b))
=============================================================================
