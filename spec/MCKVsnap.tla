------------------------------ MODULE MCKVsnap ------------------------------
(* Two readers and their iterators while batches and compactions go on.    *)
EXTENDS MCKV
K == {<<100>>, <<100, 0>>}
V == {"00", "61"}
O == {"62"}
W == {PrefixW(<<100>>), RangeW(<<>>, TRUE, <<>>, TRUE)}
T == {<<100, 0>>, <<>>}
C == {"batch", "set", "del", "merge", "exec", "cbatch", "reader", "creader", "iter", "seek", "next", "compact"}
E == {"exec", "compact", "next", "seek"}
\* a batch is executed and closed as soon as it is made
Brisk == batch # <<>> => hist'[Len(hist')].op \in {"set", "del", "merge", "exec", "cbatch"}
Once == (batch # <<>> /\ hist[Len(hist)].op = "exec") => hist'[Len(hist')].op = "cbatch"
=============================================================================
