------------------------------ MODULE RangeNav ------------------------------
(* A range of a tree: the nodes from a start node to an end node, and a      *)
(* cursor moving over it.  c = [kids, par, top, s, e]: the tree, the         *)
(* ancestor of the range, and the start and end node (0: no boundary).       *)
EXTENDS TreeWalk

PathTo(c, n) == PathFrom(c.kids, c.par, c.top, n)
Below(c, n) == SeqRange(Pre(c.kids, n))
Inside(c) == {c.top} \cup Below(c, c.top)

\* documented: a range is empty when the end node is before the start node, or
\* when its ancestor has no children; an end at the ancestor excludes all children
Empty(c) == \/ c.kids[c.top] = <<>>
            \/ c.e = c.top
            \/ c.e # 0 /\ c.s # 0 /\ PathLess(PathTo(c, c.e), PathTo(c, c.s))

\* between start (with its descendants) and end (without its descendants)
Contained(c, n) ==
    /\ n \in Inside(c)
    /\ c.s = 0 \/ PathLeq(PathTo(c, c.s), PathTo(c, n))
    /\ c.e = 0 \/ PathLeq(PathTo(c, n), PathTo(c, c.e))
\* contained, or an ancestor of a contained node
Visited(c, n) == n \in Inside(c) /\ (Contained(c, n) \/ \E m \in Below(c, n) : Contained(c, m))
\* with all descendants
Whole(c, n) == \A m \in {n} \cup Below(c, n) : Visited(c, m)
\* a node is in the range when contained; the ancestor only when the range is full
IsIn(c, n) == IF n = c.top THEN Whole(c, n) ELSE Contained(c, n)

\* an empty range is at most touched by the common ancestors of its boundaries
Touches(c, n) == IF ~Empty(c) THEN Visited(c, n)
                 ELSE /\ n \in Inside(c)
                      /\ c.s = 0 \/ n \in SeqRange(SelfAnc(c.par, c.s))
                      /\ c.e = 0 \/ n \in SeqRange(SelfAnc(c.par, c.e))

Vis(c, seq) == SelectSeq(seq, LAMBDA m : Visited(c, m))
VKids(c, n) == Vis(c, c.kids[n])

\* ---- the cursor: p = [cur, ent]; ent: the level of cur's children was entered
Level(c, p) == IF p.ent \/ p.cur = c.top THEN p.cur ELSE c.par[p.cur]
Pos(c, p) == IF p.ent \/ p.cur = c.top THEN 0 ELSE p.cur
Fresh(c) == [cur |-> c.top, ent |-> FALSE]
At(n) == [cur |-> n, ent |-> FALSE]

First(c, p) == LET v == VKids(c, Level(c, p)) IN
               IF v = <<>> THEN 0 ELSE FirstPos(c.kids[Level(c, p)], v[1])
Last(c, p) == LET v == VKids(c, Level(c, p)) IN
              IF v = <<>> THEN 0 - 1 ELSE FirstPos(c.kids[Level(c, p)], v[Len(v)])

NextOf(c, p) == LET v == VKids(c, Level(c, p)) x == Pos(c, p) IN
    IF x = 0 THEN IF v = <<>> THEN 0 ELSE v[1]
    ELSE LET i == FirstPos(v, x) + 1 IN IF i < Len(v) THEN v[i + 1] ELSE 0
PrevOf(c, p) == LET v == VKids(c, Level(c, p)) x == Pos(c, p) IN
    IF x = 0 THEN IF v = <<>> THEN 0 ELSE v[Len(v)]
    ELSE LET i == FirstPos(v, x) + 1 IN IF i > 1 THEN v[i - 1] ELSE 0

DepthOf(c, p) == Len(PathTo(c, p.cur)) - (IF p.ent \/ p.cur = c.top THEN 0 ELSE 1)
Norm(c, p) == IF p.cur = c.top THEN At(c.top) ELSE p

\* [p: new cursor, ret, err]
Mv(p, ret, err) == [p |-> p, ret |-> ret, err |-> err]
Move(c, p, a) ==
    CASE a.o = "next" -> LET n == NextOf(c, p) IN IF n = 0 THEN Mv(p, <<>>, FALSE) ELSE Mv(At(n), <<n>>, FALSE)
      [] a.o = "prev" -> LET n == PrevOf(c, p) IN IF n = 0 THEN Mv(p, <<>>, FALSE) ELSE Mv(At(n), <<n>>, FALSE)
      [] a.o = "enter" ->
           IF Pos(c, p) = 0 THEN Mv(p, <<DepthOf(c, p)>>, FALSE)
           ELSE LET q == [cur |-> p.cur, ent |-> TRUE] IN Mv(q, <<DepthOf(c, q)>>, FALSE)
      [] a.o = "leave" ->
           IF DepthOf(c, p) = 0 THEN Mv(Fresh(c), <<0>>, FALSE)
           ELSE IF p.ent THEN Mv(At(p.cur), <<DepthOf(c, p)>>, FALSE)
           ELSE Mv(At(c.par[p.cur]), <<DepthOf(c, p)>>, FALSE)
      [] a.o = "reset" -> Mv(Fresh(c), <<>>, FALSE)
      [] a.o = "goto" -> IF Visited(c, a.a) THEN Mv(At(a.a), <<1>>, FALSE) ELSE Mv(p, <<0>>, FALSE)
      [] a.o = "index" ->
           IF a.a < First(c, p) \/ a.a > Last(c, p) THEN Mv(p, <<>>, TRUE)
           ELSE Mv(At(c.kids[Level(c, p)][a.a + 1]), <<>>, FALSE)

\* what one sees of the cursor
Obs(c, p) == [node |-> p.cur,
              index |-> IF p.cur = c.top THEN 0 - 1 ELSE FirstPos(c.kids[c.par[p.cur]], p.cur),
              depth |-> DepthOf(c, p),
              trail |-> PathTo(c, p.cur),
              start |-> First(c, p), end |-> Last(c, p),
              inr |-> IF Whole(c, p.cur) THEN 1 ELSE 0]

\* ---- walks from the cursor (not from a level just entered)
RECURSIVE Extract(_, _)
Extract(c, n) == <<n, [i \in DOMAIN VKids(c, n) |-> Extract(c, VKids(c, n)[i])]>>
RECURSIVE FlatTree(_)   \* as a sequence with brackets, for comparison with logs
FlatTree(t) == <<t[1]>> \o (IF t[2] = <<>> THEN <<>> ELSE <<0>> \o Flat([i \in DOMAIN t[2] |-> FlatTree(t[2][i])]) \o <<0 - 1>>)

RWalk(c, n, o, u, P) ==
    LET top == IF u = 0 THEN c.top ELSE u
        raw == CASE o = "fwd" -> IF n = c.top THEN Pre(c.kids, n) ELSE After(c.kids, c.par, n, top)
                 [] o = "bwd" -> IF n = c.top THEN Pre(Mirror(c.kids), n) ELSE After(Mirror(c.kids), c.par, n, top)
                 [] o = "desc" -> Pre(c.kids, n)
                 [] o = "rdesc" -> Pre(Mirror(c.kids), n)
                 [] o = "nodes" -> SelectSeq(Pre(c.kids, c.top), LAMBDA m : Contained(c, m))
    IN Pruned(c.par, Vis(c, raw), P)

RAnc(c, n) == SelectSeq(AncSeq(c.par, n), LAMBDA m : m \in Inside(c))

RAnswer(c, typ, val, n, q) ==
    LET P == SeqRange(q.p)
        M == {m \in DOMAIN c.kids : Match(typ, val, m, SeqRange(q.t), q.inst)}
        Sel(w) == SelectSeq(w, LAMBDA m : m \in M)
    IN CASE q.o \in {"fwd", "bwd", "desc", "rdesc", "nodes"} -> RWalk(c, n, q.o, q.b, P)
         [] q.o = "kids" -> VKids(c, n)
         [] q.o = "rkids" -> Rev(VKids(c, n))
         [] q.o = "anc" -> RAnc(c, n)
         [] q.o = "/" -> Sel(VKids(c, n))
         [] q.o = "^" -> SelectSeq(VKids(c, n), LAMBDA m : m \notin M)
         [] q.o = "//" -> Sel(RWalk(c, n, "desc", 0, {}))
         [] q.o = ">" -> Sel(RWalk(c, n, "fwd", 0, {}))
         [] q.o = "<" -> Sel(RWalk(c, n, "bwd", 0, {}))
         [] q.o = "<<" -> Sel(RAnc(c, n))
         [] q.o = "instances" -> Filtered(c.par, RWalk(c, n, "desc", 0, {}), M)
         [] q.o = "filter" -> Filtered(c.par, RWalk(c, n, "desc", 0, {}), P)
         [] q.o = "extract" -> FlatTree(Extract(c, n))
         [] q.o = "fromhere" -> RWalk(c, n, "desc", 0, {})
         [] q.o = "fhextract" -> FlatTree(Extract(c, n))
         [] q.o = "in" -> <<IF IsIn(c, q.b) THEN 1 ELSE 0>>
         [] q.o = "and" -> <<IF Touches(c, q.b) THEN 1 ELSE 0>>
         [] q.o = "bool" -> <<IF Empty(c) THEN 0 ELSE 1>>
         [] q.o = "full" -> <<IF Whole(c, c.top) THEN 1 ELSE 0>>
         [] q.o = "bounds" -> <<c.top, c.s, c.e>>
=============================================================================
