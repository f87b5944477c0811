----------------------------- MODULE MCImplConc -----------------------------
EXTENDS ImplConc
A == <<1>>
B == <<2>>
T == {1, 2, 3}
Bs == {<<[t |-> "merge", k |-> A, v |-> "61"]>>,
       <<[t |-> "merge", k |-> A, v |-> "62"], [t |-> "merge", k |-> B, v |-> "63"]>>,
       <<[t |-> "set", k |-> A, v |-> "64"], [t |-> "set", k |-> B, v |-> "65"]>>,
       <<[t |-> "merge", k |-> A, v |-> "66"], [t |-> "del", k |-> B]>>,
       <<[t |-> "set", k |-> B, v |-> "67"], [t |-> "merge", k |-> A, v |-> Poison]>>}
=============================================================================
