------------------------------ MODULE NodeTree ------------------------------
(* Trees of nodes that keep an ordered list of children and a link to their  *)
(* parent.  State: kids[n] (the list), par[n] (the parent, 0 = none).        *)
(* Step(kids, par, op) is the effect of one public editing operation.        *)
EXTENDS PyList, FiniteSets, TLC

\* op: [o, n, x (sequence of nodes), i, j, k]
SetPar(par, xs, p) == [m \in DOMAIN par |-> IF m \in SeqRange(xs) THEN p ELSE par[m]]
Put(kids, n, s) == [kids EXCEPT ![n] = s]

Res(kids, par, err, ret) == [kids |-> kids, par |-> par, err |-> err, ret |-> ret]

Step(kids, par, op) ==
  LET n == op.n
      s == kids[n]
      x == op.x
      Fail == Res(kids, par, TRUE, <<>>)
      Ok(s2) == Res(Put(kids, n, s2), SetPar(par, x, n), FALSE, <<>>)
      Del(idx, ret) == Res(Put(kids, n, DropIdx(s, idx)), par, FALSE, ret)
  IN CASE op.o = "append" -> Ok(s \o x)
       [] op.o = "extend" -> Ok(s \o x)
       [] op.o = "insert" -> Ok(Insert(s, op.i, x[1]))
       [] op.o = "set" ->
            IF ItemOK(op.i, Len(s)) THEN Ok([s EXCEPT ![ItemIdx(op.i, Len(s)) + 1] = x[1]]) ELSE Fail
       [] op.o = "setslice" ->
            IF op.k = 1 THEN Ok(SetSlice(s, op.i, op.j, x))
            ELSE LET ix == SliceIdx(op.i, op.j, op.k, Len(s)) IN
                 IF Len(ix) # Len(x) THEN Fail
                 ELSE Ok([m \in DOMAIN s |-> IF (m - 1) \in SeqRange(ix)
                              THEN x[CHOOSE q \in DOMAIN ix : ix[q] = m - 1] ELSE s[m]])
       [] op.o = "del" ->
            IF ItemOK(op.i, Len(s)) THEN Del({ItemIdx(op.i, Len(s))}, <<>>) ELSE Fail
       [] op.o = "delslice" -> Del(SeqRange(SliceIdx(op.i, op.j, op.k, Len(s))), <<>>)
       [] op.o = "take" ->
            LET ix == SliceIdx(op.i, op.j, 1, Len(s))
            IN Del(SeqRange(ix), [m \in DOMAIN ix |-> s[ix[m] + 1]])
       [] op.o = "pop" ->
            IF ItemOK(op.i, Len(s)) THEN Del({ItemIdx(op.i, Len(s))}, <<s[ItemIdx(op.i, Len(s)) + 1]>>) ELSE Fail
       [] op.o = "remove" ->
            IF x[1] \in SeqRange(s) THEN Res(Put(kids, n, DropIdx(s, {FirstPos(s, x[1])})), par, FALSE, <<>>) ELSE Fail
       [] op.o = "clear" -> Res(Put(kids, n, <<>>), par, FALSE, <<>>)
       [] op.o = "reverse" -> Res(Put(kids, n, Rev(s)), par, FALSE, <<>>)
       [] op.o = "replace" ->
            LET p == par[n] IN
            IF p = 0 THEN Fail
            ELSE IF n \notin SeqRange(kids[p]) THEN Fail
            ELSE Res(Put(kids, p, [kids[p] EXCEPT ![FirstPos(kids[p], n) + 1] = x[1]]),
                     SetPar(par, x, p), FALSE, <<>>)
       [] op.o = "unparent" -> Res(kids, [par EXCEPT ![n] = 0], FALSE, <<>>)
       [] op.o = "index" ->
            IF x[1] \in SeqRange(s) THEN Res(kids, par, FALSE, <<FirstPos(s, x[1])>>) ELSE Fail
       [] op.o = "contains" -> Res(kids, par, FALSE, <<IF x[1] \in SeqRange(s) THEN 1 ELSE 0>>)
       [] op.o = "same" -> Res(kids, par, FALSE, <<IF x[1] = n THEN 1 ELSE 0>>)
       [] OTHER -> Res(kids, par, FALSE, <<>>)

\* the shape of a tree: type, contents and the shapes of the children
RECURSIVE Shape(_, _, _, _)
Shape(kids, typ, val, n) ==
    <<typ[n], val[n], [i \in DOMAIN kids[n] |-> Shape(kids, typ, val, kids[n][i])]>>

Reach(kids, n) ==        \* all nodes below and including n (kids acyclic)
    LET RECURSIVE f(_)
        f(m) == {m} \cup UNION {f(c) : c \in SeqRange(kids[m])}
    IN f(n)

\* ---- well-formedness of a forest: what edits that respect "a node is in at
\* ---- most one list" guarantee
Attached(kids, m) == \E p \in DOMAIN kids : m \in SeqRange(kids[p])
ParentAgrees(kids, par) ==
    \A p \in DOMAIN kids : \A m \in SeqRange(kids[p]) : par[m] = p
NoDup(kids) == \A p \in DOMAIN kids : \A i, j \in DOMAIN kids[p] : kids[p][i] = kids[p][j] => i = j
SingleParent(kids) == \A m \in DOMAIN kids :
    Cardinality({p \in DOMAIN kids : m \in SeqRange(kids[p])}) <= 1
=============================================================================
