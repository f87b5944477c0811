---------------------------- MODULE MCLifeLevel -----------------------------
EXTENDS MCLife
P == {1, 2}
B == {"bleve"}
T == {"unset", "true", "false"}
V == {"61", "62"}
E == {"open", "put", "stale"}
=============================================================================
