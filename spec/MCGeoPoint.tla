----------------------------- MODULE MCGeoPoint -----------------------------
(* Points at the first and last leaves of cells, of faces and of the       *)
(* sphere; every ancestor is looked up.                                    *)
EXTENDS MCGeo
L == {First0(<<0>>), Last3(<<0, 1>>), First0(<<0, 2>>), Last3(<<0>>), First0(<<1>>), Last3(<<5>>)}
X == "p" :> [kind |-> "point", level |-> 30, prefix |-> <<255>>]
Cov == "p" :> {<<l>> : l \in L}
I == {"ff", "61", "61ff"}
T == {}
K == {<<254, 255>>}
Up(l) == {SubSeq(l, 1, n) : n \in {1, 2, 3, 16, 30, 31}}
Q == "p" :> (UNION {Up(l) : l \in L} \cup {<<0, 3>>, <<5, 2>>, <<4>>})
S == "p" :> {<<>>, <<<<0>>, <<0, 1>>>>, <<<<0, 1>>, <<0>>, <<0, 1>>>>, <<<<0, 1>>, <<0, 2>>, <<5>>>>, <<<<1>>, Last3(<<0>>)>>}
W == {}
=============================================================================
