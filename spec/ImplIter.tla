------------------------------ MODULE ImplIter ------------------------------
(***************************************************************************)
(* How the backends build the iterators of KV from the cursors of their    *)
(* engines, which run over the whole store: where each call moves the      *)
(* cursor, and when the position counts as valid.  Checked: in every state *)
(* of MCKViter each backend is where the iterator of KV is.                *)
(* Two more, refuted by the checks, show what is checked: "unclamped" does *)
(* not bring seeks up to the start of the window, "noend" ends a range     *)
(* after its end instead of before it.                                     *)
(***************************************************************************)
EXTENDS MCKViter

CONSTANT Engines
VARIABLE cur  \* engine -> [k: the key under the cursor or NoKey, inv: seek gave up]
ivars == <<mvars, cur>>

NoKey == <<256>>
\* the engine's cursor: the first key of the whole store at or after t
CSeek(m, t) == LET S == {k \in DOMAIN m : Le(t, k)} IN IF S = {} THEN NoKey ELSE First(S)
CNext(m, c) == LET S == {k \in DOMAIN m : Lt(c, k)} IN IF S = {} THEN NoKey ELSE First(S)
\* the end of the keys with a prefix: its last byte below 255 increased
RECURSIVE UpTo(_, _)
UpTo(p, i) == IF i = 0 THEN NoKey
              ELSE IF p[i] < 255 THEN SubSeq(p, 1, i - 1) \o <<p[i] + 1>> ELSE UpTo(p, i - 1)
After(p) == UpTo(p, Len(p))

Start(w) == IF w.t = "prefix" THEN w.p ELSE IF w.sn THEN <<>> ELSE w.s
IsPrefix(w) == w.t = "prefix"
Pos(k) == [k |-> k, inv |-> FALSE]

\* goleveldb: the engine's iterator over [start, limit), inverted ranges empty
Limit(w) == IF IsPrefix(w) THEN After(w.p) ELSE IF w.en THEN NoKey ELSE w.e
Low(w) == IF ~ IsPrefix(w) /\ ~ w.en /\ Lt(w.e, Start(w)) THEN w.e ELSE Start(w)
Bound(m, w, t) ==
  LET k == CSeek(m, IF Lt(t, Low(w)) THEN Low(w) ELSE t)
  IN IF Limit(w) # NoKey /\ k # NoKey /\ ~ Lt(k, Limit(w)) THEN NoKey ELSE k

SeekIn(e, m, w, t) ==
  LET up == IF Lt(t, Start(w)) THEN Start(w) ELSE t
  IN CASE e = "bolt" ->
            IF IsPrefix(w) /\ ~ HasPrefix(up, w.p) /\ ~ Lt(up, w.p)
            THEN [k |-> NoKey, inv |-> TRUE]
            ELSE Pos(CSeek(m, IF IsPrefix(w) /\ ~ HasPrefix(up, w.p) THEN w.p ELSE up))
       [] e = "gtreap" ->
            IF IsPrefix(w) /\ ~ HasPrefix(up, w.p)
            THEN Pos(IF After(w.p) = NoKey THEN CSeek(m, <<>>) ELSE CSeek(m, After(w.p)))
            ELSE Pos(CSeek(m, up))
       [] e \in {"badger", "noend"} -> Pos(CSeek(m, up))
       [] e = "goleveldb" -> Pos(Bound(m, w, t))
       [] e = "unclamped" -> Pos(CSeek(m, t))
OpenIn(e, m, w) == IF e = "goleveldb" THEN Pos(Bound(m, w, Low(w))) ELSE Pos(CSeek(m, Start(w)))
NextIn(e, m, w, c) ==
  IF e = "goleveldb"
  THEN LET k == CNext(m, c) IN Pos(IF Limit(w) # NoKey /\ k # NoKey /\ ~ Lt(k, Limit(w)) THEN NoKey ELSE k)
  ELSE Pos(CNext(m, c))
ValidIn(e, w, c) ==
  /\ c.k # NoKey /\ ~ c.inv
  /\ e # "goleveldb" =>
       IF IsPrefix(w) THEN HasPrefix(c.k, w.p)
       ELSE w.en \/ IF e = "noend" THEN Le(c.k, w.e) ELSE Lt(c.k, w.e)

IInit == MInit /\ cur = [e \in Engines |-> Pos(NoKey)]
INext ==
  /\ MNext
  /\ cur' = IF hist' = hist THEN cur ELSE
       LET c == hist'[Len(hist')]
       IN IF c.op \notin {"iter", "seek", "next"} THEN cur
          ELSE LET w == iter'[1].w
                   m == snap[iter'[1].r]
               IN [e \in Engines |->
                     CASE c.op = "iter" -> OpenIn(e, m, w)
                       [] c.op = "seek" -> SeekIn(e, m, w, c.k)
                       [] OTHER -> NextIn(e, m, w, cur[e].k)]
ISpec == IInit /\ [][INext]_ivars

Where == 1 \in DOMAIN iter =>
  \A e \in Engines : /\ ValidIn(e, iter[1].w, cur[e]) <=> iter[1].ok
                     /\ iter[1].ok => cur[e].k = iter[1].k
IView == <<View, cur>>
=============================================================================
