----------------------------- MODULE MCKVbatch ------------------------------
(* Batches of up to three operations on two keys, from every content.      *)
EXTENDS MCKV
K == {<<100>>, <<100, 0>>}
V == {"", "61"}
O == {"62", "2163"}
C == {"batch", "set", "del", "merge", "reset", "exec"}
None == {}
E == {"exec"}
=============================================================================
