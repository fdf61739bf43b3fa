----------------------------- MODULE Positions -----------------------------
(* Where the elements of a tree are in the text, and what is found there.    *)
(* A tree is given in document order: n.d the depth of a node, n.hb, n.he    *)
(* and n.tb, n.te where the text of its own head and tail begins and ends    *)
(* (NO if it has none). The text is never empty.                             *)
EXTENDS Naturals, Sequences, FiniteSets
NO == 100000000

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

\* the index of the last descendant of node i (or i itself)
LastOf(t, i) == LET after == {j \in i + 1 .. Len(t) : t[j].d <= t[i].d}
                IN IF after = {} THEN Len(t) ELSE Min(after) - 1
Below(t, i) == i + 1 .. LastOf(t, i)
Kids(t, i) == {j \in Below(t, i) : t[j].d = t[i].d + 1}

\* the span of the text of a node and all its descendants
Begins(t, S) == {t[j].hb : j \in S} \cup {t[j].tb : j \in S}
Ends(t, S) == {t[j].he : j \in S} \cup {t[j].te : j \in S}
Pos(t, i) == Min(Begins(t, i .. LastOf(t, i)))       \* NO if there is no text
End(t, i) == LET E == Ends(t, i .. LastOf(t, i)) \ {NO} IN IF E = {} THEN NO ELSE Max(E)
\* all spans at once
Spans(t) == [i \in DOMAIN t |-> <<Pos(t, i), End(t, i)>>]
HasText(s, i) == s[i][1] # NO

\* the texts are in document order and do not overlap
Ordered(t) ==
    LET s == Spans(t) IN
    /\ \A i \in DOMAIN t :
        /\ t[i].hb # NO => \A j \in Below(t, i) : HasText(s, j) => t[i].he <= s[j][1]
        /\ t[i].tb # NO => /\ \A j \in Below(t, i) : HasText(s, j) => s[j][2] <= t[i].tb
                           /\ t[i].hb # NO => t[i].he <= t[i].tb
    /\ \A i, j \in DOMAIN t : (i < j /\ j \notin Below(t, i) /\ HasText(s, i) /\ HasText(s, j)) => s[i][2] <= s[j][1]

\* ---- searching; 0 is nothing
FindChild(t, s, i, p) ==
    LET C == {c \in Kids(t, i) : HasText(s, c)}
        starting == {c \in C : s[c][1] = p}
        within == {c \in C : s[c][1] < p /\ p < s[c][2]}
        ending == {c \in C : s[c][2] = p}
    IN IF starting # {} THEN Min(starting) ELSE IF within # {} THEN Min(within) ELSE IF ending # {} THEN Min(ending) ELSE 0

\* the child at p, the grandchild at p, ..., as long as they contain p .. e
RECURSIVE FindDown(_, _, _, _, _)
FindDown(t, s, i, p, e) ==
    LET c == FindChild(t, s, i, p)
    IN IF c = 0 THEN <<>> ELSE IF s[c][2] < e THEN <<>> ELSE <<c>> \o FindDown(t, s, c, p, e)
Descendants(t, s, i, p, e) == FindDown(t, s, i, p, IF e < p THEN p ELSE e)

\* the first one that starts at or after p, the last one that ends at or before p;
\* the outermost if there is a choice
Right(t, s, i, p) == LET S == {j \in Below(t, i) : HasText(s, j) /\ s[j][1] >= p} IN IF S = {} THEN 0 ELSE Min(S)
Left(t, s, i, p) ==
    LET S == {j \in Below(t, i) : HasText(s, j) /\ s[j][2] <= p}
        parent(j) == Max({k \in 1 .. j - 1 : t[k].d = t[j].d - 1})
        outer == {j \in S : parent(j) \notin S}
    IN IF outer = {} THEN 0 ELSE Max(outer)

\* the elements of which the text is completely in the selection a .. b
Selected(t, s, a, b) == {j \in DOMAIN t : HasText(s, j) /\ a <= s[j][1] /\ s[j][2] <= b}
IsLeaf(t, s, j) == \A k \in Below(t, j) : ~HasText(s, k)
\* an element of which every part has a place in the text
Placed(t, s, j) == \A k \in j .. LastOf(t, j) : HasText(s, k)
\* a set of elements is the selection: it has everything that is selected, and
\* nothing else; an element with others below it is only in the range as a whole
\* (whole) if all of those are
RightSelection(t, s, a, b, X, whole) ==
    LET want == Selected(t, s, a, b) IN
    /\ \A j \in want : IsLeaf(t, s, j) \/ Placed(t, s, j) => j \in X
    /\ \A j \in X : HasText(s, j) => IF IsLeaf(t, s, j) THEN j \in want
                                     ELSE whole => \A k \in Below(t, j) : HasText(s, k) /\ IsLeaf(t, s, k) => k \in want
=============================================================================
