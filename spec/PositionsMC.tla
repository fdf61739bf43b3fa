---------------------------- MODULE PositionsMC ----------------------------
(* Grows all trees with up to MaxNodes nodes, each with or without text of   *)
(* its own before and after its children, with and without gaps between the  *)
(* texts; checks that the answers are coherent; prints every tree with the   *)
(* answers to all questions.                                                 *)
EXTENDS Positions, TLC, Json
CONSTANTS MaxNodes, Gaps
VARIABLES t, open, at, done
vars == <<t, open, at, done>>
\* t: the nodes; open: the indices of the nodes still open, the root first; at: end of the text
Init == t = <<[d |-> 0, hb |-> NO, he |-> NO, tb |-> NO, te |-> NO]>> /\ open = <<1>> /\ at = 0 /\ done = FALSE
OpenNode == /\ ~done /\ Len(t) < MaxNodes
        /\ \E g \in Gaps, h \in BOOLEAN :
            /\ t' = Append(t, [d |-> Len(open), hb |-> IF h THEN at + g ELSE NO, he |-> IF h THEN at + g + 1 ELSE NO, tb |-> NO, te |-> NO])
            /\ at' = IF h THEN at + g + 1 ELSE at
            /\ IF ~h THEN g = Min(Gaps) ELSE TRUE
            /\ open' = Append(open, Len(t) + 1)
        /\ UNCHANGED done
CloseNode == /\ ~done /\ Len(open) > 1
         /\ LET i == open[Len(open)] IN
            \E g \in Gaps, h \in BOOLEAN :
              /\ IF ~h THEN g = Min(Gaps) ELSE t[i].hb # NO
              /\ t' = IF h THEN [t EXCEPT ![i].tb = at + g, ![i].te = at + g + 1] ELSE t
              /\ at' = IF h THEN at + g + 1 ELSE at
         /\ open' = SubSeq(open, 1, Len(open) - 1) /\ UNCHANGED done
Done == /\ ~done /\ Len(open) = 1 /\ done' = TRUE /\ UNCHANGED <<t, open, at>>
Next == OpenNode \/ CloseNode \/ Done
Spec == Init /\ [][Next]_vars

S == Spans(t)
Places == 0 .. at + 1
Wellformed == done => Ordered(t)
\* what is found contains the place, and what is found to the right and left is nearest
Coherent == done =>
    \A p \in Places :
      /\ LET ds == Descendants(t, S, 1, p, p) IN
            /\ \A k \in DOMAIN ds : S[ds[k]][1] <= p /\ p <= S[ds[k]][2]
            /\ (ds = <<>>) <=> (\A j \in DOMAIN t : HasText(S, j) /\ j > 1 => ~(S[j][1] <= p /\ p <= S[j][2]))
      /\ LET r == Right(t, S, 1, p) IN r # 0 => \A j \in Below(t, 1) : HasText(S, j) /\ S[j][1] >= p => S[r][1] <= S[j][1]
      /\ LET r == Left(t, S, 1, p) IN r # 0 => \A j \in Below(t, 1) : HasText(S, j) /\ S[j][2] <= p => S[r][2] >= S[j][2]
\* what is selected lies between the nearest to the right of the start and the nearest to the left of the end
SelectedBetween == done =>
    \A a, b \in Places : a < b =>
      LET r == Right(t, S, 1, a) l == Left(t, S, 1, b) s == Selected(t, S, a, b) \ {1} IN
      /\ (s # {}) => r # 0 /\ l # 0
      /\ \A j \in s : r <= j /\ j <= LastOf(t, l)
      /\ (r # 0 /\ l # 0 /\ r <= LastOf(t, l)) =>
            \A j \in r .. LastOf(t, l) : HasText(S, j) => (j \in s \/ (\E k \in Below(t, j) : k \in s) \/ S[j][2] > b)
Emit == IF ~done THEN TRUE ELSE PrintT(ToJson([t |-> t, spans |-> S, n |-> at + 1,
          child |-> [i \in DOMAIN t |-> [p \in 1 .. at + 2 |-> FindChild(t, S, i, p - 1)]],
          right |-> [i \in DOMAIN t |-> [p \in 1 .. at + 2 |-> Right(t, S, i, p - 1)]],
          left |-> [i \in DOMAIN t |-> [p \in 1 .. at + 2 |-> Left(t, S, i, p - 1)]],
          down |-> [p \in 1 .. at + 2 |-> [e \in 1 .. at + 2 |-> Descendants(t, S, 1, p - 1, e - 1)]]]))
=============================================================================
