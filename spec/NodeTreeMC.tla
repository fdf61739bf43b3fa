---------------------------- MODULE NodeTreeMC ----------------------------
(* Exhaustive exploration of all edit sequences on N nodes in which a node   *)
(* is put into a list only while it is in none; every transition is printed  *)
(* to be replayed into the real code.                                        *)
EXTENDS NodeTree, Json

CONSTANTS N, MaxLen
VARIABLES kids, par, op
vars == <<kids, par, op>>

Id == 1..N
NoOp == [o |-> "none", n |-> 1, x |-> <<>>, i |-> 0, j |-> 0, k |-> 1]
Init == kids = [n \in Id |-> <<>>] /\ par = [n \in Id |-> 0] /\ op = NoOp

Op(o, n, x, i, j, k) == [o |-> o, n |-> n, x |-> x, i |-> i, j |-> j, k |-> k]
Free(n) == {m \in Id : ~Attached(kids, m) /\ n \notin Reach(kids, m)}
Pairs(S) == {<<a, b>> : a \in S, b \in S} \ {<<a, a>> : a \in S}
Idx == (0 - 2)..2
SIdx == {NoIdx, 0 - 1, 0, 1, 2}

Ops(n) ==
    LET F == Free(n)
        S1 == {<<a>> : a \in F}
        S2 == S1 \cup Pairs(F)
        S0 == S2 \cup {<<>>}
    IN {Op("append", n, x, 0, 0, 1) : x \in S1}
       \cup {Op("extend", n, x, 0, 0, 1) : x \in S0}
       \cup {Op("insert", n, x, i, 0, 1) : x \in S1, i \in Idx}
       \cup {Op("set", n, x, i, 0, 1) : x \in S1, i \in Idx}
       \cup {Op("setslice", n, x, i, j, 1) : x \in S0, i \in SIdx, j \in SIdx}
       \cup {Op("setslice", n, x, NoIdx, NoIdx, k) : x \in S0, k \in {2, 0 - 1}}
       \cup {Op("del", n, <<>>, i, 0, 1) : i \in Idx}
       \cup {Op("delslice", n, <<>>, i, j, 1) : i \in SIdx, j \in SIdx}
       \cup {Op("take", n, <<>>, i, j, 1) : i \in SIdx, j \in SIdx}
       \cup {Op("pop", n, <<>>, i, 0, 1) : i \in Idx}
       \cup {Op("remove", n, <<m>>, 0, 0, 1) : m \in Id}
       \cup {Op("replace", n, x, 0, 0, 1) : x \in {<<a>> : a \in
                {m \in Id : ~Attached(kids, m) /\ m # n /\ (par[n] = 0 \/ par[n] \notin Reach(kids, m))}}}
       \cup {Op("reverse", n, <<>>, 0, 0, 1), Op("unparent", n, <<>>, 0, 0, 1)}

Next == \E n \in Id : \E o \in Ops(n) :
          LET r == Step(kids, par, o) IN
          /\ \A p \in Id : Len(r.kids[p]) <= MaxLen
          /\ (o.o = "unparent" => ~Attached(kids, n))
          /\ kids' = r.kids /\ par' = r.par /\ op' = o

Spec == Init /\ [][Next]_vars
View == <<kids, par>>

\* the structural guarantee
Consistent == ParentAgrees(kids, par) /\ SingleParent(kids) /\ NoDup(kids)
\* only the target's list and the parents of the nodes put in change
Frame == [][ /\ \A p \in Id : kids'[p] # kids[p] => p = op'.n \/ (op'.o = "replace" /\ p = par[op'.n])
             /\ \A m \in Id : par'[m] # par[m] => m \in SeqRange(op'.x) \/ (op'.o = "unparent" /\ m = op'.n) ]_vars

Emit == PrintT(ToJson([k |-> kids, p |-> par, op |-> op',
                       k2 |-> kids', p2 |-> par', r |-> Step(kids, par, op').ret,
                       e |-> Step(kids, par, op').err]))
=============================================================================
