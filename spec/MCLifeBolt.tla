----------------------------- MODULE MCLifeBolt -----------------------------
EXTENDS MCLife
P == {1, 2}
B == {"bleve", "other", ""}
T == {"unset"}
V == {"61", "62"}
E == {"open", "put", "stale"}
=============================================================================
