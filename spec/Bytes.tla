------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of 0..255, ordered lexicographically.        *)
EXTENDS Naturals, Sequences

RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, i) ==
  IF i > Len(b) THEN FALSE
  ELSE IF i > Len(a) THEN TRUE
  ELSE IF a[i] # b[i] THEN a[i] < b[i]
  ELSE LtFrom(a, b, i + 1)

Lt(a, b) == LtFrom(a, b, 1)
Le(a, b) == ~ Lt(b, a)
HasPrefix(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p

\* the first key, in byte order, of a nonempty set
First(S) == CHOOSE k \in S : \A j \in S : Le(k, j)

HexDigit == <<"0", "1", "2", "3", "4", "5", "6", "7",
              "8", "9", "a", "b", "c", "d", "e", "f">>
RECURSIVE HexFrom(_, _)
HexFrom(k, i) == IF i > Len(k) THEN ""
                 ELSE HexDigit[(k[i] \div 16) + 1] \o HexDigit[(k[i] % 16) + 1]
                      \o HexFrom(k, i + 1)
Hex(k) == HexFrom(k, 1)
=============================================================================
