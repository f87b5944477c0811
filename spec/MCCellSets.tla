----------------------------- MODULE MCCellSets -----------------------------
EXTENDS MCCells
P == {<<2, 1>>, <<2, 1, 0>>, <<5, 3>>}
C == {}
K == {}
=============================================================================
