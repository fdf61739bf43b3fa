------------------------------ MODULE Spanners ------------------------------
(* Music as a sequence of tokens: [k, c, h, id]. k = "in" / "out": a context *)
(* (\new), assignment or score begins / ends; k = "span": the start or stop  *)
(* (h) of a spanner of kind c with identity id ("" if none).                 *)
EXTENDS Naturals, Sequences, FiniteSets

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

\* the "in" token of the music every token is directly in (0: the document)
ScopeOf(e, i) ==
    LET RECURSIVE back(_, _)
        back(j, n) == IF j = 0 THEN 0
                      ELSE IF e[j].k = "out" THEN back(j - 1, n + 1)
                      ELSE IF e[j].k = "in" THEN IF n = 0 THEN j ELSE back(j - 1, n - 1)
                      ELSE back(j - 1, n)
    IN back(i - 1, 0)
IsSpan(e, i) == e[i].k = "span"
Same(e, i, j) == IsSpan(e, j) /\ e[j].c = e[i].c /\ e[j].id = e[i].id /\ ScopeOf(e, i) = ScopeOf(e, j)

\* the counterpart of the spanner at i: 0 if there is none
Counterpart(e, i) ==
    IF e[i].h = "start"
    THEN LET S == {j \in i + 1 .. Len(e) : Same(e, i, j) /\ e[j].h = "stop"} IN IF S = {} THEN 0 ELSE Min(S)
    ELSE LET S == {j \in 1 .. i - 1 : Same(e, i, j) /\ e[j].h = "start"} IN IF S = {} THEN 0 ELSE Max(S)

\* the spanner is properly used: its neighbours of the same kind are opposites
Proper(e, i) == LET j == Counterpart(e, i) IN
    j # 0 /\ \A m \in Min({i, j}) + 1 .. Max({i, j}) - 1 : ~Same(e, i, m)
=============================================================================
