------------------------------ MODULE MCKViter ------------------------------
(* One iterator over every content of four keys, every window, every seek. *)
EXTENDS MCKV
K == {<<100>>, <<100, 0>>, <<100, 255>>, <<255>>}
V == {"61"}
P == {<<>>, <<99>>, <<100, 0>>, <<101>>, <<255>>, <<255, 255>>}
T == P \cup {<<100>>, <<100, 0, 0>>}
W == {PrefixW(p) : p \in {<<>>, <<100>>, <<100, 0>>, <<100, 255>>, <<255>>, <<255, 255>>}}
     \cup {RangeW(s, FALSE, e, FALSE) : s \in P, e \in P \ {<<>>}}
     \cup {RangeW(s, FALSE, <<>>, TRUE) : s \in P} \cup {RangeW(<<>>, TRUE, e, FALSE) : e \in P \ {<<>>}}
     \cup {RangeW(<<>>, TRUE, <<>>, TRUE)}
O == {}
C == {"batch", "set", "exec", "cbatch", "reader", "iter", "seek", "next"}
E == {"seek", "next"}
\* the contents come first, each key once and in order
First1 == LET op == hist'[Len(hist')].op
          IN /\ snap # <<>> => op \in {"iter", "seek", "next"}
             /\ batch # <<>> => op \in {"set", "exec", "cbatch"}
             /\ op = "set" => \A k \in DOMAIN db : Lt(k, hist'[Len(hist')].k)
             /\ (batch # <<>> /\ hist[Len(hist)].op = "exec") => op = "cbatch"
=============================================================================
