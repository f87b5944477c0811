------------------------------ MODULE MCGeoFlat ------------------------------
(* Two flat indexes of neighbouring prefixes: covers of one to three cells,*)
(* among them the first and the last cell of the sphere.                   *)
EXTENDS MCGeo
A == <<0, 0, 0>>
B == <<2, 1, 3>>
C == <<5, 3, 3>>
X == "a" :> [kind |-> "flat", level |-> 2, prefix |-> <<1, 255>>] @@ "b" :> [kind |-> "flat", level |-> 2, prefix |-> <<2, 0>>]
Cov == "a" :> {<<A>>, <<C>>, <<A, B>>, <<A, B, C>>} @@ "b" :> {<<C>>, <<B, C>>}
I == {"00", "61", "6162"}
T == {}
K == {<<1, 254>>, <<2, 1>>}
Q == "a" :> {A, B, C, <<0, 0, 1>>, <<5, 3>>, <<0, 0, 0, 0>>} @@ "b" :> {A, B, C, <<2, 1, 2>>, <<2>>}
S == "a" :> {<<>>, <<A, C>>, <<C, B, A, C>>, <<A, <<0, 0>>>>} @@ "b" :> {<<B, C>>, <<A>>}
W == {}
=============================================================================
