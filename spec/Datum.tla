------------------------------- MODULE Datum --------------------------------
(* Scheme data: a sequence of tokens ("(", "#(", ")", "quote", "dot",        *)
(* "atom", "comment") read by a stack machine into a tree, and the tree      *)
(* written as tokens. A tree is the sequence of its nodes in preorder, each  *)
(* with its parent (0: toplevel) and the number of its token.                *)
EXTENDS Integers, Sequences
Opens == {"(", "#("}
RECURSIVE PopQuotes(_, _)
PopQuotes(st, nodes) == IF st # <<>> /\ nodes[st[Len(st)]].k = "quote" THEN PopQuotes(SubSeq(st, 1, Len(st) - 1), nodes) ELSE st
Top(st) == IF st = <<>> THEN 0 ELSE st[Len(st)]
\* the dot in a list, 0: none; before and after it there are data, after it just one
DotIn(nodes, p) == LET D == {j \in DOMAIN nodes : nodes[j].p = p /\ nodes[j].k = "dot"} IN IF D = {} THEN 0 ELSE CHOOSE j \in D : TRUE
Pending(m) == LET d == DotIn(m.nodes, Top(m.st)) IN d # 0 /\ ~\E j \in d + 1 .. Len(m.nodes) : m.nodes[j].p = Top(m.st) /\ m.nodes[j].k # "comment"
Start == [nodes |-> <<>>, st |-> <<>>, ok |-> TRUE]
Step(m, k, i) ==
    IF k = ")" THEN
        IF m.st = <<>> \/ m.nodes[Top(m.st)].k = "quote" \/ Pending(m) THEN [m EXCEPT !.ok = FALSE]
        ELSE [m EXCEPT !.st = PopQuotes(SubSeq(@, 1, Len(@) - 1), m.nodes)]
    ELSE LET ns == Append(m.nodes, [k |-> k, p |-> Top(m.st), i |-> i])
             inq == m.st # <<>> /\ m.nodes[Top(m.st)].k = "quote"
             d == DotIn(m.nodes, Top(m.st))
             after == d # 0 /\ k # "comment" /\ ~inq /\ \E j \in d + 1 .. Len(m.nodes) : m.nodes[j].p = Top(m.st) /\ m.nodes[j].k # "comment"
         IN IF after THEN [m EXCEPT !.ok = FALSE]
            ELSE IF k \in Opens \cup {"quote"} THEN [m EXCEPT !.nodes = ns, !.st = Append(@, Len(ns))]
            ELSE IF k = "atom" THEN [m EXCEPT !.nodes = ns, !.st = PopQuotes(@, m.nodes)]
            ELSE \* a dot or comment: not where a datum must follow
                 [m EXCEPT !.nodes = ns, !.ok = @ /\ ~inq /\ (k = "dot" => /\ m.st # <<>> /\ m.nodes[Top(m.st)].k = "(" /\ d = 0
                                                                            /\ \E j \in DOMAIN m.nodes : m.nodes[j].p = Top(m.st) /\ m.nodes[j].k # "comment")]
RECURSIVE RunFrom(_, _, _)
RunFrom(m, toks, i) == IF i > Len(toks) THEN m ELSE RunFrom(Step(m, toks[i], i), toks, i + 1)
Run(toks) == RunFrom(Start, toks, 1)
Complete(m) == m.ok /\ m.st = <<>>
Tree(toks) == Run(toks).nodes
\* ---- writing
RECURSIVE WriteNode(_, _)
KidsOf(ns, j) == SelectSeq([i \in 1 .. Len(ns) |-> i], LAMBDA i : ns[i].p = j)
RECURSIVE WriteAll(_, _)
WriteAll(ns, js) == IF js = <<>> THEN <<>> ELSE WriteNode(ns, Head(js)) \o WriteAll(ns, Tail(js))
WriteNode(ns, j) == <<ns[j].k>> \o WriteAll(ns, KidsOf(ns, j)) \o (IF ns[j].k \in Opens THEN <<")">> ELSE <<>>)
Written(ns) == WriteAll(ns, KidsOf(ns, 0))
=============================================================================
