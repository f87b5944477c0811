---------------------------- MODULE MCKVcompact -----------------------------
(* Compaction of every content of four keys.                               *)
EXTENDS MCKV
K == {<<99, 100>>, <<100>>, <<100, 0>>, <<101>>}
V == {"00", "", "0000", "01"}
O == {}
None == {}
C == {"batch", "set", "exec", "cbatch", "compact", "reader"}
E == {"compact"}
Brisk == /\ batch # <<>> => hist'[Len(hist')].op \in {"set", "del", "exec", "cbatch"}
         /\ (batch # <<>> /\ hist[Len(hist)].op = "exec") => hist'[Len(hist')].op = "cbatch"
\* the contents at once, in order; compactions and readers come after
Grow == LET op == hist'[Len(hist')].op
        IN /\ op = "set" => \A k \in PlainKeys(batch[1]) : Lt(k, hist'[Len(hist')].k)
           /\ db # Empty => op \notin {"batch", "set"}
           /\ op \in {"compact", "reader"} => db # Empty
=============================================================================
