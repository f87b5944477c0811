----------------------------- MODULE MCKVmulti ------------------------------
(* Every list of up to three keys, from every content, also through a      *)
(* reader opened before the last batch.                                    *)
EXTENDS MCKV
K == {<<100>>, <<100, 0>>, <<99>>}
V == {"", "61"}
O == {}
None == {}
C == {"batch", "set", "del", "exec", "cbatch", "reader", "mget"}
E == {"mget"}
Brisk == batch # <<>> => hist'[Len(hist')].op \in {"set", "del", "exec", "cbatch"}
Once == (batch # <<>> /\ hist[Len(hist)].op = "exec") => hist'[Len(hist')].op = "cbatch"
=============================================================================
