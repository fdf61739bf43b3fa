------------------------------ MODULE SpacesMC ------------------------------
(* A tree being built: elements are added, their own spacing is set and      *)
(* unset, and the tree is replaced by its copy. Emits every history, with    *)
(* the text at every step.                                                   *)
EXTENDS Spaces, TLC, Json, FiniteSets
CONSTANTS MaxNodes, Depth
VARIABLES nodes,    \* seq of [ty, par, set]; the children are in the order of the sequence
          hist,
          done
Attrs == {"before", "after_head", "between", "before_tail", "after"}
Sp(b, h, m, t, a) == [before |-> b, after_head |-> h, between |-> m, before_tail |-> t, after |-> a]
S == <<0, 1>>
L == <<1, 0>>
LL == <<2, 0>>
Types == {"Plain", "Word", "Block", "Group", "Line", "Column", "Doc", "Newline", "BlankLine", "Comment"}
Default(ty) == CASE ty = "Word" -> Sp(S, None, None, None, S)
                 [] ty = "Block" -> Sp(None, S, S, S, None)
                 [] ty = "Group" -> Sp(L, None, S, None, None)
                 [] ty = "Line" -> Sp(L, None, S, None, L)
                 [] ty = "Column" -> Sp(L, None, L, None, L)
                 [] ty = "Doc" -> Sp(None, None, LL, None, None)
                 [] ty \in {"Newline", "Comment"} -> Sp(None, None, None, None, L)
                 [] ty = "BlankLine" -> Sp(None, None, None, None, LL)
                 [] OTHER -> Sp(None, None, None, None, None)
HeadOf(ty, i) == CASE ty = "Plain" -> "p" \o ToString(i) [] ty = "Word" -> "w" \o ToString(i)
                 [] ty = "Block" -> "{" [] ty = "Comment" -> "%" \o ToString(i) [] OTHER -> ""
TailOf(ty) == IF ty = "Block" THEN "}" ELSE ""
Leaf == {"Newline", "BlankLine", "Comment"}
Unset == <<-1, -1>>
NoSet == [a \in Attrs |-> Unset]
KidsOf(ns, i) == SelectSeq([j \in 1..Len(ns) |-> j], LAMBDA j : ns[j].par = i)
Spacing(ns, i) == [a \in Attrs |-> IF ns[i].set[a] = Unset THEN Default(ns[i].ty)[a] ELSE ns[i].set[a]]
RECURSIVE Tree(_, _)
Tree(ns, i) == [h |-> HeadOf(ns[i].ty, i), t |-> TailOf(ns[i].ty), sp |-> Spacing(ns, i),
                doc |-> IF ns[i].ty = "Doc" THEN "y" ELSE "n",
                one |-> IF ns[i].ty \in {"Newline", "Comment"} THEN "y" ELSE "n",
                kids |-> LET k == KidsOf(ns, i) IN [j \in 1..Len(k) |-> Tree(ns, k[j])]]
Text(ns) == Write(Tree(ns, 1))
Apply(st, e) ==     \* the state after an operation
    CASE e.op = "root" -> [st EXCEPT !.nodes = <<[ty |-> e.arg, par |-> 0, set |-> NoSet]>>]
      [] e.op = "add" -> [st EXCEPT !.nodes = Append(@, [ty |-> e.arg, par |-> e.i, set |-> NoSet])]
      [] e.op = "set" -> [st EXCEPT !.nodes[e.i].set[e.arg] = e.q]
      [] e.op = "del" -> [st EXCEPT !.nodes[e.i].set[e.arg] = Unset]
      [] e.op = "copy" -> [st EXCEPT !.old = Text(st.nodes)]
Do(op, i, arg, q) == LET e == [op |-> op, i |-> i, arg |-> arg, q |-> q] IN
    /\ hist' = Append(hist, e)
    /\ nodes' = Apply([nodes |-> nodes, old |-> ""], e).nodes
Init == \E ty \in Types \ Leaf : LET e == [op |-> "root", i |-> 1, arg |-> ty, q |-> None] IN
            /\ hist = <<e>>
            /\ nodes = Apply([nodes |-> <<>>, old |-> ""], e).nodes
Add == /\ Len(nodes) < MaxNodes
       /\ \E ty \in Types, i \in DOMAIN nodes : nodes[i].ty \notin Leaf /\ Do("add", i, ty, None)
Set == \E i \in DOMAIN nodes, a \in Attrs, q \in {None, S, L, LL} : Do("set", i, a, q)
Del == \E i \in DOMAIN nodes, a \in Attrs : Do("del", i, a, None)
Copy == Do("copy", 0, "", None)
Next == IF Len(hist) < Depth THEN (Add \/ Set \/ Del \/ Copy) /\ done' = FALSE
        ELSE ~done /\ done' = TRUE /\ UNCHANGED <<nodes, hist>>
Spec == Init /\ done = FALSE /\ [][Next]_<<nodes, hist, done>>
\* the model: setting the default is the same as unsetting; nothing at the edges
DefaultIsUnset == \A i \in DOMAIN nodes, a \in Attrs :
    nodes[i].set[a] = Default(nodes[i].ty)[a] => Text(nodes) = Text([nodes EXCEPT ![i].set[a] = Unset])
EdgesFree == \A a \in {"before", "after"}, q \in {S, LL} : Text([nodes EXCEPT ![1].set[a] = q]) = Text(nodes)
\* the history with the text and the spacing after every operation
Told == LET F[k \in 0..Len(hist)] == IF k = 0 THEN <<[st |-> [nodes |-> <<>>, old |-> ""], e |-> [op |-> "none"]]>>
                                     ELSE CHOOSE g \in {Append(f, [st |-> Apply(f[Len(f)].st, hist[k]), e |-> hist[k]]) : f \in {F[k - 1]}} : TRUE
        IN [k \in 1..Len(hist) |-> LET x == F[Len(hist)][k + 1] IN
               [op |-> x.e.op, i |-> x.e.i, arg |-> x.e.arg, q |-> x.e.q, text |-> Text(x.st.nodes), old |-> x.st.old,
                sp |-> Spacing(x.st.nodes, IF x.e.i = 0 THEN 1 ELSE x.e.i)]]
Emit == done => PrintT(ToJson(Told))
=============================================================================
