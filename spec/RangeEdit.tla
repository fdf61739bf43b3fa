----------------------------- MODULE RangeEdit -----------------------------
(* Editing the children of the current level through a range.               *)
(* State of a range: kids (tree), top, inn (the set of contained nodes,      *)
(* without top), bs / be (is there a start / end boundary), and the stack of *)
(* levels, each a node L with pos = number of its children already passed.   *)
EXTENDS RangeNav

FirstIn(kids, top, inn) == LET w == SelectSeq(Pre(kids, top), LAMBDA m : m \in inn) IN IF w = <<>> THEN 0 ELSE w[1]
LastIn(kids, top, inn) == LET w == SelectSeq(Pre(kids, top), LAMBDA m : m \in inn) IN IF w = <<>> THEN 0 ELSE w[Len(w)]
IsInterval(kids, top, inn) ==
    LET w == Pre(kids, top) IN \A i, j, k \in DOMAIN w : i < j /\ j < k /\ w[i] \in inn /\ w[k] \in inn => w[j] \in inn

VisIn(kids, inn, n) == n \in inn \/ \E m \in SeqRange(Pre(kids, n)) : m \in inn

\* the block of the list that an operation replaces: [a, b), a <= b
Block(op, n) ==
    CASE op.o \in {"set", "del"} -> <<ItemIdx(op.i, n), ItemIdx(op.i, n) + 1>>
      [] OTHER -> LET a == SliceStart(op.i, n, 1) IN <<a, Max2(a, SliceStop(op.j, n, 1))>>
Fails(op, n) == op.o \in {"set", "del"} /\ ~ItemOK(op.i, n)

\* index of the child of L on the way to m, -1 if m is not below L
ChildOn(kids, L, m) ==
    IF m # 0 /\ \E i \in DOMAIN kids[L] : m = kids[L][i] \/ m \in SeqRange(Pre(kids, kids[L][i]))
    THEN (CHOOSE i \in DOMAIN kids[L] : m = kids[L][i] \/ m \in SeqRange(Pre(kids, kids[L][i]))) - 1
    ELSE 0 - 1

\* result: [list, nin (new nodes that must be in), free (new nodes not decided), pos]
Edit(kids, top, inn, bs, be, L, pos, op, nk) ==   \* nk: kids including the new nodes
    LET n == Len(kids[L])
        ab == Block(op, n)
        a == ab[1]  b == ab[2]  k == Len(op.x)
        s == IF bs THEN FirstIn(kids, top, inn) ELSE 0
        e == IF be THEN LastIn(kids, top, inn) ELSE 0
        si == ChildOn(kids, L, s)
        ei == ChildOn(kids, L, e)
        new == UNION {{m} \cup SeqRange(Pre(nk, m)) : m \in SeqRange(op.x)}
        isset == op.o = "set"
        gone(i) == i # 0 - 1 /\ a <= i /\ i < b
        undecided == ~isset /\ (gone(si) \/ gone(ei))
        inside == /\ e # L
                  /\ si = 0 - 1 \/ IF isset THEN a >= si ELSE a > si
                  /\ ei = 0 - 1 \/ IF isset THEN a <= ei ELSE b <= ei
    IN [list |-> SubSeq(kids[L], 1, a) \o op.x \o SubSeq(kids[L], b + 1, n),
        nin |-> IF undecided \/ ~inside THEN {}
                ELSE IF isset /\ ei = a THEN SeqRange(op.x) ELSE new,
        free |-> IF undecided THEN new ELSE {},
        pos |-> IF pos <= a THEN pos ELSE IF b <= pos THEN pos + k - (b - a) ELSE a + k]

\* the children the iteration of level L still has to yield
Rest(kids, inn, L, pos) ==
    SelectSeq(SubSeq(kids[L], pos + 1, Len(kids[L])), LAMBDA m : VisIn(kids, inn, m))

Survivors(kids, top) == SeqRange(Pre(kids, top))
=============================================================================
