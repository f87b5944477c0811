------------------------------ MODULE MCGeoMix ------------------------------
(* One index of each kind and data in one store, which may fail.           *)
EXTENDS MCGeo
A == <<0, 3, 3>>
B == <<0, 3, 2>>
X == "f" :> [kind |-> "flat", level |-> 2, prefix |-> <<0, 0>>]
     @@ "t" :> [kind |-> "time", level |-> 2, prefix |-> <<0, 1>>]
     @@ "p" :> [kind |-> "point", level |-> 30, prefix |-> <<0, 2>>]
Cov == "f" :> {<<A>>, <<B, A>>} @@ "t" :> {<<A>>, <<B, A>>} @@ "p" :> {<<Last3(<<0>>)>>, <<First0(<<0, 3, 2>>)>>}
I == {"61", "00ff"}
T == {TMinus, T0}
K == {<<0>>, <<0, 3>>}
Q == "f" :> {A, B, <<0, 3>>} @@ "t" :> {A, B, <<0>>} @@ "p" :> {A, B, <<0>>, Last3(<<0>>), <<1>>}
S == "f" :> {<<A, B>>, <<B, B, A>>} @@ "t" :> {<<A, B>>} @@ "p" :> {<<A, B>>, <<<<0>>, B>>}
W == {<<TMax, TMin>>, <<T0, TMinus>>, <<TMinus, TMin>>}
=============================================================================
