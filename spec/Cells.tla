------------------------------- MODULE Cells --------------------------------
(***************************************************************************)
(* Cell ids as 64 bit numbers, and every way they are written.             *)
(*                                                                         *)
(* An id is the sequence of its 16 hexadecimal digits, most significant    *)
(* first; a written form is a sequence of character codes.  The id of the  *)
(* cell <<face, digit, ..., digit>> is, in binary, three bits of face, two *)
(* bits per digit, a one, and zeros.                                       *)
(***************************************************************************)
EXTENDS Bytes, FiniteSets, TLC

Zero == [i \in 1 .. 16 |-> 0]

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)

\* bit b (0 = least significant) of an id
Bit(x, b) == (x[16 - b \div 4] \div Pow2(b % 4)) % 2

\* the id of a cell given as a path; bits counted from the most significant
IdBit(p, i) ==        \* i in 0 .. 63 from the top
  LET n == Len(p) - 1
  IN IF i < 3 THEN (p[1] \div Pow2(2 - i)) % 2
     ELSE IF i < 3 + 2 * n THEN (p[(i - 3) \div 2 + 2] \div (IF (i - 3) % 2 = 0 THEN 2 ELSE 1)) % 2
     ELSE IF i = 3 + 2 * n THEN 1 ELSE 0
Id(p) == [k \in 1 .. 16 |-> 8 * IdBit(p, 4*k - 4) + 4 * IdBit(p, 4*k - 3) + 2 * IdBit(p, 4*k - 2) + IdBit(p, 4*k - 1)]

\* valid: a face below 6, and the lowest bit set at an even place up to 60
Lowest(x) == CHOOSE b \in 0 .. 63 : Bit(x, b) = 1 /\ \A c \in 0 .. b - 1 : Bit(x, c) = 0
ValidId(x) == x[1] \div 2 <= 5 /\ x # Zero /\ Lowest(x) % 2 = 0 /\ Lowest(x) <= 60
LevelOf(x) == 30 - Lowest(x) \div 2

-----------------------------------------------------------------------------
(* Characters *)
Slash == 47
IsDigit(c) == c \in 48 .. 57
IsLowerHex(c) == IsDigit(c) \/ c \in 97 .. 102
IsUpperHex(c) == c \in 65 .. 70
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55

\* hexadecimal digits, filled with zeros on the right
IsHex(s) == Len(s) \in 1 .. 16 /\ \A i \in DOMAIN s : IsLowerHex(s[i]) \/ IsUpperHex(s[i])
FromHex(s) == [i \in 1 .. 16 |-> IF i <= Len(s) THEN HexVal(s[i]) ELSE 0]
\* the token of an id: its digits without the zeros at the end
TokenOf(x) == LET n == CHOOSE n \in 1 .. 16 : x[n] # 0 /\ \A m \in n + 1 .. 16 : x[m] = 0
              IN [i \in 1 .. n |-> IF x[i] < 10 THEN 48 + x[i] ELSE 87 + x[i]]
IsToken(s) == IsHex(s) /\ ValidId(FromHex(s)) /\ s = TokenOf(FromHex(s))

\* x * 10 + d, with the carry out of 64 bits in front
RECURSIVE TimesTen(_, _, _)
TimesTen(x, carry, i) ==
  IF i = 0 THEN [x |-> x, over |-> carry]
  ELSE LET v == x[i] * 10 + carry IN TimesTen([x EXCEPT ![i] = v % 16], v \div 16, i - 1)
RECURSIVE Decimal(_, _)
Decimal(s, acc) ==
  IF s = <<>> \/ acc.over # 0 THEN acc
  ELSE Decimal(Tail(s), TimesTen(acc.x, s[1] - 48, 16))
IsDecimal(s) == Len(s) \in 1 .. 40 /\ \A i \in DOMAIN s : IsDigit(s[i])
FromDecimal(s) == Decimal(s, [x |-> Zero, over |-> 0])

-----------------------------------------------------------------------------
(* Parsing *)
HasSlash(s) == \E i \in DOMAIN s : s[i] = Slash
IsFaceDigits(s) ==
  /\ Len(s) \in 2 .. 32 /\ s[1] \in 48 .. 53 /\ s[2] = Slash
  /\ \A i \in 3 .. Len(s) : s[i] \in 48 .. 51
FaceDigits(s) == Id(<<s[1] - 48>> \o [i \in 1 .. Len(s) - 2 |-> s[i + 2] - 48])

\* what a string must parse to, as a set of at most one id
Must(s) ==
  IF HasSlash(s) THEN IF IsFaceDigits(s) THEN {FaceDigits(s)} ELSE {}
  ELSE IF IsToken(s) THEN {FromHex(s)}
  ELSE IF IsDecimal(s) /\ Len(s) >= 17 /\ s[1] # 48
       THEN LET d == FromDecimal(s) IN IF d.over = 0 /\ ValidId(d.x) THEN {d.x} ELSE {}
  ELSE {}
\* what else it may be taken for, where it is a loose form of an id: capital
\* letters or zeros at the end of a token, zeros in front of or less than 17
\* digits of a decimal
May(s) ==
  IF HasSlash(s) THEN {}
  ELSE (IF IsHex(s) /\ ValidId(FromHex(s)) THEN {FromHex(s)} ELSE {})
       \cup (IF IsDecimal(s) THEN LET d == FromDecimal(s) IN IF d.over = 0 /\ ValidId(d.x) THEN {d.x} ELSE {} ELSE {})

\* got is the sequence of no or one id
Parses(s, got) ==
  IF Must(s) # {} THEN Len(got) = 1 /\ got[1] \in Must(s)
  ELSE Len(got) = 0 \/ (Len(got) = 1 /\ got[1] \in May(s))

-----------------------------------------------------------------------------
(* Sets of cells, as sequences of ids *)
SetOf(cu) == {cu[i] : i \in DOMAIN cu}
IsUnion(lists, out) ==
  /\ \A i \in 1 .. Len(out) - 1 : Lt(out[i], out[i + 1])
  /\ SetOf(out) = UNION {SetOf(lists[i]) : i \in DOMAIN lists}

\* strike out of from, for each occurrence in to, the earliest equal one left
RECURSIVE Strike(_, _)
Strike(from, to) ==
  IF to = <<>> THEN from
  ELSE LET at == {i \in DOMAIN from : from[i] = to[1]}
       IN IF at = {} THEN Strike(from, Tail(to))
          ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
               IN Strike(SubSeq(from, 1, i - 1) \o SubSeq(from, i + 1, Len(from)), Tail(to))

(* The same for long lists, as sequences of runs [id, n]: n times a cell.     *)
RECURSIVE Occ(_, _, _)
Occ(runs, k, x) == IF k = 0 THEN 0 ELSE Occ(runs, k - 1, x) + (IF runs[k].id = x THEN runs[k].n ELSE 0)
Above(n) == IF n > 0 THEN n ELSE 0
\* what is left of run i: what earlier runs of the cell did not use up of to is
\* struck out here
Left(from, to, i) ==
  Above(from[i].n - Above(Occ(to, Len(to), from[i].id) - Occ(from, i - 1, from[i].id)))
\* runs of equal cells next to each other are one, and empty ones none
RECURSIVE Merged(_)
Merged(runs) ==
  IF runs = <<>> THEN <<>>
  ELSE IF Head(runs).n = 0 THEN Merged(Tail(runs))
  ELSE LET m == Merged(Tail(runs))
       IN IF m # <<>> /\ m[1].id = Head(runs).id
          THEN <<[id |-> m[1].id, n |-> m[1].n + Head(runs).n]>> \o Tail(m)
          ELSE <<Head(runs)>> \o m
StrikeRuns(from, to) == Merged([i \in DOMAIN from |-> [id |-> from[i].id, n |-> Left(from, to, i)]])
IdsOf(runs) == [i \in DOMAIN runs |-> runs[i].id]
=============================================================================
