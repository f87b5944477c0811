------------------------------ MODULE MCKVfail ------------------------------
(* Two batches, operands on which merging fails, reopening.                *)
EXTENDS MCKV
K == {<<1>>, <<2>>}
V == {"61"}
O == {"62", Poison}
C == {"batch", "set", "del", "merge", "reset", "exec", "reopen"}
None == {}
E == {"exec", "reopen"}
=============================================================================
