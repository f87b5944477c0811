------------------------------ MODULE MCGeoTime -----------------------------
(* Events around 1970 and at the ends of time, and every window between.   *)
EXTENDS MCGeo
A == <<3, 0>>
B == <<5, 3>>
X == "t" :> [kind |-> "time", level |-> 1, prefix |-> <<116, 0>>]
Cov == "t" :> {<<A>>, <<A, B>>}
I == {"80", "61"}
T == {TMin, TMinus, T0, TMax}
K == {}
Q == "t" :> {A, B, <<3>>, <<3, 1>>}
S == "t" :> {<<A, B>>, <<B, B>>, <<A, <<5>>>>}
W == {TMax, TPlus, T0, TMinus, TMin} \X {TMax, T0, TMinus, TMin}
=============================================================================
