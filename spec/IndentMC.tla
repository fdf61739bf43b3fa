------------------------------ MODULE IndentMC ------------------------------
(* Trees of blocks, words, comments and groups, each on a new line or not.   *)
(* Nodes are added in preorder. Emits each with its layout.                  *)
EXTENDS Indent, TLC, Json, FiniteSets
CONSTANTS MaxNodes, Types
VARIABLES nodes,    \* seq of [ty, dep, nb, nt]
          ctx, done
S == <<0, 1>>
Blocks == {"A", "B", "C"}
Sp(b, h, m, t, a) == [before |-> b, after_head |-> h, between |-> m, before_tail |-> t, after |-> a]
RECURSIVE Kids(_, _, _)
Kids(ns, i, j) == IF j > Len(ns) \/ ns[j].dep <= ns[i].dep THEN <<>>
                  ELSE IF ns[j].dep = ns[i].dep + 1 THEN <<j>> \o Kids(ns, i, j + 1) ELSE Kids(ns, i, j + 1)
RECURSIVE Tree(_, _)
Tree(ns, i) == LET n == ns[i]
                   b == n.ty \in Blocks
                   k == Kids(ns, i, i + 1)
               IN [h |-> IF b THEN "{" ELSE IF n.ty = "W" THEN "w" \o ToString(i) ELSE IF n.ty = "X" THEN "%%" \o ToString(i) ELSE "",
                   t |-> IF b THEN "}" ELSE "", doc |-> "n", one |-> "n",
                   sp |-> IF b THEN Sp(<<n.nb, 0>>, S, S, IF n.nt = 0 THEN S ELSE <<n.nt, 0>>, None) ELSE Sp(<<n.nb, 0>>, S, S, None, None),
                   ind |-> IF b THEN "y" ELSE "n",
                   al |-> CASE n.ty = "A" -> <<0>> [] n.ty = "C" -> <<1, 0>> [] OTHER -> <<>>,
                   ov |-> IF n.ty = "X" THEN 0 ELSE -1,
                   kids |-> [j \in DOMAIN k |-> Tree(ns, k[j])]]
Ctxs == {[width |-> 2, start |-> 0, max |-> 16], [width |-> 4, start |-> 3, max |-> 4]}
Init == /\ nodes = <<[ty |-> "G", dep |-> 0, nb |-> 0, nt |-> 0]>> /\ done = FALSE /\ ctx \in Ctxs
Leafs == {"X"}
Next == IF Len(nodes) <= MaxNodes
        THEN /\ \E ty \in Types, d \in 1..(nodes[Len(nodes)].dep + 1), nb \in {0, 1}, nt \in {0, 1} :
                  /\ nt = 1 => ty \in Blocks
                  /\ nodes[Len(nodes)].ty \in Leafs => d <= nodes[Len(nodes)].dep
                  /\ nodes' = Append(nodes, [ty |-> ty, dep |-> d, nb |-> nb, nt |-> nt])
             /\ UNCHANGED <<done, ctx>>
        ELSE ~done /\ done' = TRUE /\ UNCHANGED <<nodes, ctx>>
Spec == Init /\ [][Next]_<<nodes, ctx, done>>
\* of the model: after all blocks are closed the start indent is in effect,
\* and a line after that would have it; no line is left of the start indent
Sane == done => LET l == Layout(ctx, Tree(nodes, 1)) IN
                /\ l.open = <<>>
                /\ \A i \in DOMAIN l.inds : l.inds[i] >= ctx.start \/ l.inds[i] = 0
Emit == done => PrintT(ToJson([nodes |-> nodes, ctx |-> ctx, lines |-> Layout(ctx, Tree(nodes, 1)).lines]))
=============================================================================
