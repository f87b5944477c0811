----------------------------- MODULE MCCellText -----------------------------
EXTENDS MCCells
Pad(p, d) == p \o [i \in 1 .. 31 - Len(p) |-> d]
P == {}
\* 0 1 3 4 5 6 8 / c f F space
C == {48, 49, 51, 52, 53, 54, 56, 47, 99, 102, 70, 32}
K == {<<f>> : f \in 0 .. 5} \cup {<<f, d>> : f \in {0, 5}, d \in 0 .. 3} \cup {Pad(<<f>>, d) : f \in 0 .. 5, d \in 0 .. 3}
     \cup {SubSeq(Pad(<<3, 1, 2>>, d), 1, n) : d \in {0, 3}, n \in 2 .. 31}
=============================================================================
