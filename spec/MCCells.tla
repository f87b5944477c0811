------------------------------ MODULE MCCells -------------------------------
(***************************************************************************)
(* Cells within small constants: all short lists of a few cells, and all   *)
(* short texts, written out for the real functions; and what the           *)
(* definitions of Cells promise, in other terms.                           *)
(***************************************************************************)
EXTENDS Cells, Json, IOUtils, CSV, Integers

CONSTANTS Paths,    \* the cells of lists
          Len1, Len2, Len3, \* the lengths of the lists of pairs, and of triples
          Chars, TextLen,   \* texts
          Known             \* cells all whose forms are tried, and cut or longer

VARIABLES ask
\* sequences over S of length n at most
UpTo(S, n) == UNION {[1 .. k -> S] : k \in 0 .. n}
RECURSIVE Decimals(_)
\* the digits of an id in base ten: repeated division of its hexadecimal digits
RECURSIVE DivTen(_, _, _, _)
DivTen(x, i, rem, q) == IF i > 16 THEN [q |-> q, rem |-> rem]
                        ELSE LET v == rem * 16 + x[i] IN DivTen(x, i + 1, v % 10, Append(q, v \div 10))
Decimals(x) == IF x = Zero THEN <<>> ELSE LET d == DivTen(x, 1, 0, <<>>) IN Append(Decimals(d.q), 48 + d.rem)
FaceText(p) == <<48 + p[1], Slash>> \o [i \in 1 .. Len(p) - 1 |-> 48 + p[i + 1]]
Forms(p) == {FaceText(p), TokenOf(Id(p)), Decimals(Id(p))}
Upper(s) == [i \in DOMAIN s |-> IF s[i] \in 97 .. 102 THEN s[i] - 32 ELSE s[i]]
Edits(s) == {s, Upper(s), SubSeq(s, 1, Len(s) - 1), SubSeq(s, 2, Len(s)), s \o <<48>>, s \o <<51>>, <<48>> \o s, s \o <<Slash>>, <<32>> \o s,
             s \o <<52>>, s \o s, <<45>> \o s, <<43>> \o s} \cup {[s EXCEPT ![1] = c] : c \in Chars}

Init == ask = [op |-> "none"]
Next ==
  /\ ask.op = "none"
  /\ \/ \E a \in UpTo(Paths, Len1), b \in UpTo(Paths, Len2) : ask' = [op |-> "lists", lists |-> <<a, b>>]
     \/ \E a, b, c \in UpTo(Paths, Len3) : ask' = [op |-> "lists", lists |-> <<a, b, c>>]
     \/ \E s \in UpTo(Chars, TextLen) : ask' = [op |-> "text", s |-> s]
     \/ \E p \in Known : \E s \in Forms(p) : \E t \in Edits(s) : ask' = [op |-> "text", s |-> t]
Spec == Init /\ [][Next]_ask

-----------------------------------------------------------------------------
Ids(l) == [i \in DOMAIN l |-> Id(l[i])]
Count(l, x) == Cardinality({i \in DOMAIN l : l[i] = x})
RECURSIVE Sub(_, _)
Sub(s, t) == \/ s = <<>>
             \/ t # <<>> /\ IF s[1] = t[1] THEN Sub(Tail(s), Tail(t)) ELSE Sub(s, Tail(t))
\* striking out leaves, in order, each cell as often as it occurs more in the
\* first list
Struck ==
  ask.op = "lists" /\ Len(ask.lists) = 2 =>
    LET a == Ids(ask.lists[1])
        b == Ids(ask.lists[2])
        r == Strike(a, b)
    IN /\ Sub(r, a)
       /\ \A x \in SetOf(a) \cup SetOf(b) : Count(r, x) = LET n == Count(a, x) - Count(b, x) IN IF n > 0 THEN n ELSE 0
       /\ Strike(a, a) = <<>> /\ Strike(a, <<>>) = a
       /\ Strike(a \o b, a) = b          \* the earliest are struck out
\* and so it is with runs
Runs(l) == Merged([i \in DOMAIN l |-> [id |-> l[i], n |-> 1]])
StruckRuns ==
  ask.op = "lists" /\ Len(ask.lists) = 2 =>
    LET a == Ids(ask.lists[1])
        b == Ids(ask.lists[2])
    IN /\ StrikeRuns(Runs(a), Runs(b)) = Runs(Strike(a, b))
       /\ LET T == {IdsOf(Runs(a)), a} IN \A x \in T : SetOf(x) = SetOf(a)
\* the union is one list: that of the distinct cells ascending
Unites ==
  ask.op = "lists" =>
    LET l == [i \in DOMAIN ask.lists |-> Ids(ask.lists[i])]
        S == UNION {SetOf(l[i]) : i \in DOMAIN l}
        asc == {s \in [1 .. Cardinality(S) -> S] : \A i \in 1 .. Len(s) - 1 : Lt(s[i], s[i + 1])}
    IN Cardinality(asc) = 1 /\ \A s \in asc : IsUnion(l, s)
\* a text means one cell at most, and what it has to mean it may mean
Means ==
  ask.op = "text" =>
    /\ Cardinality(Must(ask.s)) <= 1
    /\ \A x \in Must(ask.s) \cup May(ask.s) : ValidId(x)
    /\ ~ HasSlash(ask.s) => Must(ask.s) \subseteq May(ask.s)
\* the forms of a cell mean it, and the id tells its level
Written ==
  ask.op = "none" =>
    /\ \A p \in Known : /\ ValidId(Id(p)) /\ LevelOf(Id(p)) = Len(p) - 1
                        /\ Must(FaceText(p)) = {Id(p)} /\ Must(TokenOf(Id(p))) = {Id(p)}
                        /\ Id(p) \in May(Decimals(Id(p))) \cup Must(Decimals(Id(p)))
                        /\ FromDecimal(Decimals(Id(p))).x = Id(p)
    /\ \A p, q \in Known : Id(p) = Id(q) => p = q
    \* ids are ordered along the curve: a cell lies between the ends of its own
    /\ \A p, q \in Known : ~ HasPrefix(p, q) /\ ~ HasPrefix(q, p) => (Lt(Id(p), Id(q)) <=> Lt(p, q))
Emit == "SCRIPTS" \notin DOMAIN IOEnv \/ CSVWrite("%1$s", <<ToJson(ask')>>, IOEnv.SCRIPTS)
=============================================================================
