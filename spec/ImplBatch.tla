----------------------------- MODULE ImplBatch ------------------------------
(***************************************************************************)
(* How the backends collect batches and execute them: sets and deletes in  *)
(* a list, merge operands per key, folded together as they come when the   *)
(* merge operator can (PartialMerge); an execution merges key after key,   *)
(* then makes the sets and deletes, on a private copy that is published or *)
(* thrown away.  goleveldb differs: it appends the merged values to the    *)
(* list of the batch, where they stay.  Checked: in every state of the     *)
(* model each way holds the contents of KV.  Refuted: "keepmerges" (reset  *)
(* forgets the list only), "direct" (no private copy), "last" (folding     *)
(* keeps the later operand only).                                          *)
(***************************************************************************)
EXTENDS MCKVfail

CONSTANT Ways
VARIABLES ib,  \* way -> batch -> [ops: list, mg: key -> operands]
          idb  \* way -> contents
bvars == <<mvars, ib, idb>>

New == [ops |-> <<>>, mg |-> <<>>]
HasPoison(o) == \E i \in 1 .. Len(o) : i + 3 <= Len(o) /\ SubSeq(o, i, i + 3) = Poison
Discards(o) == Len(o) >= 2 /\ SubSeq(o, 1, 2) = "21"
\* PartialMerge: whether, and what
Folded(l, r) == IF Discards(r) /\ ~ HasPoison(l) THEN r ELSE l \o "7c" \o r
CanFold(way, l, r) == CASE way = "never" -> FALSE
                        [] way = "odd" -> Len(l) = 2
                        [] OTHER -> TRUE
AddMerge(way, mg, k, v) ==
  IF k \notin DOMAIN mg THEN (k :> <<v>>) @@ mg
  ELSE LET s == mg[k]
           l == s[Len(s)]
       IN [mg EXCEPT ![k] = IF way = "last" THEN <<v>>
             ELSE IF CanFold(way, l, v) THEN SubSeq(s, 1, Len(s) - 1) \o <<Folded(l, v)>>
             ELSE Append(s, v)]
Fails(os) == \E i \in DOMAIN os : HasPoison(os[i])

\* merging the keys of mg in the order ks, from the i-th on: how far it came,
\* and what it wrote
RECURSIVE Puts(_, _, _, _)
Puts(m, mg, ks, i) ==
  IF i > Len(ks) THEN [ok |-> TRUE, puts |-> <<>>]
  ELSE IF Fails(mg[ks[i]]) THEN [ok |-> FALSE, puts |-> <<>>]
  ELSE LET r == Puts(m, mg, ks, i + 1)
           v == Full(ks[i], Val(m, ks[i]), mg[ks[i]])
       IN [ok |-> r.ok, puts |-> <<[t |-> "set", k |-> ks[i], v |-> v]>> \o r.puts]
\* Go visits the keys of a map in any order
Up(S) == CHOOSE s \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN s : i < j => Lt(s[i], s[j])
Down(S) == LET u == Up(S) IN [i \in DOMAIN u |-> u[Len(u) + 1 - i]]
Order(way, S) == IF way = "leveldb-down" THEN Down(S) ELSE Up(S)
LevelDB(way) == way \in {"leveldb-up", "leveldb-down"}

Run(way, b) == Puts(idb[way], ib[way][b].mg, Order(way, DOMAIN ib[way][b].mg), 1)
NextBatch(way, c) ==
  CASE c.op = "batch" -> (c.b :> New) @@ ib[way]
    [] c.op = "reopen" -> <<>>
    [] c.op = "reset" -> [ib[way] EXCEPT ![c.b] = IF way = "keepmerges" THEN [@ EXCEPT !.ops = <<>>] ELSE New]
    [] c.op \in {"set", "del"} -> [ib[way] EXCEPT ![c.b].ops = Append(@,
         IF c.op = "set" THEN [t |-> "set", k |-> c.k, v |-> c.v] ELSE [t |-> "del", k |-> c.k])]
    [] c.op = "merge" -> [ib[way] EXCEPT ![c.b].mg = AddMerge(way, @, c.k, c.v)]
    [] c.op = "exec" /\ LevelDB(way) -> [ib[way] EXCEPT ![c.b].ops = @ \o Run(way, c.b).puts]
    [] OTHER -> ib[way]
NextDb(way, c) ==
  IF c.op # "exec" THEN idb[way]
  ELSE LET r == Run(way, c.b)
       IN IF ~ r.ok THEN IF way = "direct" THEN PlainFrom(idb[way], r.puts, 1) ELSE idb[way]
          ELSE IF LevelDB(way) THEN PlainFrom(idb[way], ib[way][c.b].ops \o r.puts, 1)
          ELSE PlainFrom(PlainFrom(idb[way], r.puts, 1), ib[way][c.b].ops, 1)

BInit == MInit /\ ib = [w \in Ways |-> <<>>] /\ idb = [w \in Ways |-> Empty]
BNext == MNext /\ LET c == hist'[Len(hist')]
                  IN /\ ib' = [w \in Ways |-> NextBatch(w, c)]
                     /\ idb' = [w \in Ways |-> NextDb(w, c)]
BSpec == BInit /\ [][BNext]_bvars
Same == \A w \in Ways : idb[w] = db
\* goleveldb batches grow with every execution
Short == \A w \in Ways : \A b \in DOMAIN ib[w] : Len(ib[w][b].ops) <= 5
BView == <<View, ib, idb>>
\* operations on two keys, operands of which one discards and one fails
Om == {"62", "2163", Poison}
=============================================================================
