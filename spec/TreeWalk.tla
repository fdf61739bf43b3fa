------------------------------ MODULE TreeWalk ------------------------------
(* The one document order of an ordered tree and everything derived from it. *)
(* A tree (or forest) is given as kids: a sequence of sequences of node ids; *)
(* typ and val are the type and contents of the nodes.                       *)
EXTENDS PyList, FiniteSets

Nodes(kids) == DOMAIN kids
Parent(kids, n) == IF \E p \in DOMAIN kids : n \in SeqRange(kids[p])
                   THEN CHOOSE p \in DOMAIN kids : n \in SeqRange(kids[p]) ELSE 0
ParentMap(kids) == [n \in DOMAIN kids |-> Parent(kids, n)]

RECURSIVE AncSeq(_, _)        \* ancestors, nearest first
AncSeq(par, n) == IF par[n] = 0 THEN <<>> ELSE <<par[n]>> \o AncSeq(par, par[n])
AncSet(par, n) == SeqRange(AncSeq(par, n))
Root(par, n) == LET a == AncSeq(par, n) IN IF a = <<>> THEN n ELSE a[Len(a)]

Index(kids, par, n) == FirstPos(kids[par[n]], n)

\* path of indices from ancestor a down to n
RECURSIVE PathFrom(_, _, _, _)
PathFrom(kids, par, a, n) ==
    IF n = a THEN <<>> ELSE PathFrom(kids, par, a, par[n]) \o <<Index(kids, par, n)>>
Trail(kids, par, n) == PathFrom(kids, par, Root(par, n), n)

\* document order on paths: an ancestor comes first
RECURSIVE PathLess(_, _)
PathLess(s, t) == IF t = <<>> THEN FALSE
                  ELSE IF s = <<>> THEN TRUE
                  ELSE IF s[1] # t[1] THEN s[1] < t[1]
                  ELSE PathLess(Tail(s), Tail(t))
PathLeq(s, t) == s = t \/ PathLess(s, t)

RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

RECURSIVE Pre(_, _)           \* the descendants of n in document order
Pre(kids, n) == Flat([i \in DOMAIN kids[n] |-> <<kids[n][i]>> \o Pre(kids, kids[n][i])])

Mirror(kids) == [n \in DOMAIN kids |-> Rev(kids[n])]

\* everything after n and outside n, inside the subtree of u, in document order
After(kids, par, n, u) ==
    LET path(m) == PathFrom(kids, par, u, m)
        here == path(n)
        pre == Pre(kids, u)
    IN SelectSeq(pre, LAMBDA m : PathLess(here, path(m)) /\ n \notin AncSet(par, m))

\* a walk in which the descendants of the nodes in P are skipped on request
Pruned(par, w, P) ==
    LET cut == P \cap SeqRange(w)
    IN SelectSeq(w, LAMBDA m : AncSet(par, m) \cap cut = {})

Walk(kids, par, o, n, u, P) ==
    LET top == IF u = 0 THEN Root(par, n) ELSE u
    IN CASE o = "fwd"  -> Pruned(par, After(kids, par, n, top), P)
         [] o = "bwd"  -> Pruned(par, After(Mirror(kids), par, n, top), P)
         [] o = "desc" -> Pruned(par, Pre(kids, n), P)
         [] o = "rdesc" -> Pruned(par, Pre(Mirror(kids), n), P)
         [] o = "anc"  -> AncSeq(par, n)
         [] o = "kids" -> kids[n]

RECURSIVE Height(_, _)
Height(kids, n) == IF kids[n] = <<>> THEN 0
                   ELSE 1 + (LET hs == {Height(kids, c) : c \in SeqRange(kids[n])}
                             IN CHOOSE h \in hs : \A g \in hs : g <= h)

SelfAnc(par, n) == <<n>> \o AncSeq(par, n)
Common(par, a, b) ==          \* youngest node containing both, 0 if none
    LET s == SelectSeq(SelfAnc(par, a), LAMBDA m : m \in SeqRange(SelfAnc(par, b)))
    IN IF s = <<>> THEN 0 ELSE s[1]

\* type tests: class 0, 1, 2 (a subclass of 0), 9 (base of all)
IsA(t, c) == c = 9 \/ t = c \/ (c = 0 /\ t = 2)
TypeIn(t, T) == \E c \in T : IsA(t, c)
Match(typ, val, n, T, inst) ==    \* inst = 0: test by classes T; else by example node
    IF inst = 0 THEN TypeIn(typ[n], T) ELSE typ[n] = typ[inst] /\ val[n] = val[inst]

\* matched nodes; the descendants of a matched node are not searched
Filtered(par, w, M) == SelectSeq(Pruned(par, w, M), LAMBDA m : m \in M)

\* Known finding (the host language, not this code, resolves it): with an
\* example node of a strict subtype, < and > are evaluated by the example node.
Reflected(typ, q) == q.o \in {"<", ">"} /\ q.inst # 0 /\ typ[q.inst] = 2 /\ typ[q.a] = 0

Opt(x) == IF x = 0 THEN <<>> ELSE <<x>>

Answer(kids, typ, val, q) ==
    LET par == ParentMap(kids)
        n == q.a
        sibs == IF par[n] = 0 THEN <<>> ELSE kids[par[n]]
        ix == IF par[n] = 0 THEN 0 ELSE Index(kids, par, n)
        P == SeqRange(q.p)
        T == SeqRange(q.t)
        M == {m \in DOMAIN kids : Match(typ, val, m, T, q.inst)}
        c == Common(par, n, q.b)
        Sel(w) == SelectSeq(w, LAMBDA m : m \in M)
        NotSel(w) == SelectSeq(w, LAMBDA m : m \notin M)
    IN CASE q.o \in {"fwd", "bwd", "desc", "rdesc", "anc"} -> Walk(kids, par, q.o, n, q.b, P)
         [] q.o = "root" -> <<Root(par, n)>>
         [] q.o = "trail" -> Trail(kids, par, n)
         [] q.o = "depth" -> <<Len(AncSeq(par, n))>>
         [] q.o = "height" -> <<Height(kids, n)>>
         [] q.o = "isroot" -> <<IF par[n] = 0 THEN 1 ELSE 0>>
         [] q.o = "islast" -> <<IF ix = Len(sibs) - 1 THEN 1 ELSE 0>>
         [] q.o = "isfirst" -> <<IF ix = 0 THEN 1 ELSE 0>>
         [] q.o = "rsibs" -> SubSeq(sibs, ix + 2, Len(sibs))
         [] q.o = "lsibs" -> Rev(SubSeq(sibs, 1, ix))
         [] q.o = "rsib" -> IF ix + 2 <= Len(sibs) THEN <<sibs[ix + 2]>> ELSE <<>>
         [] q.o = "lsib" -> IF ix >= 1 THEN <<sibs[ix]>> ELSE <<>>
         [] q.o = "ancix" -> Flat([i \in DOMAIN AncSeq(par, n) |->
                <<AncSeq(par, n)[i], Index(kids, par, SelfAnc(par, n)[i])>>])
         [] q.o = "common" -> Opt(c)
         [] q.o = "commontrail" -> IF c = 0 THEN <<>> ELSE
                <<c, 0 - 1>> \o PathFrom(kids, par, c, n) \o <<0 - 1>> \o PathFrom(kids, par, c, q.b)
         [] q.o = "/" -> Sel(kids[n])
         [] q.o = "^" -> NotSel(kids[n])
         [] q.o = "//" -> Sel(Pre(kids, n))
         [] q.o = "<<" -> Sel(AncSeq(par, n))
         [] q.o = ">" -> Sel(Walk(kids, par, "fwd", n, 0, {}))
         [] q.o = "<" -> Sel(Walk(kids, par, "bwd", n, 0, {}))
         [] q.o = "instances" -> Filtered(par, Pre(kids, n), M)
         [] q.o = "filter" -> Filtered(par, Pre(kids, n), P)
         [] q.o \in {"filterfwd", "filterbwd"} ->
                Filtered(par, Walk(kids, par, IF q.o = "filterfwd" THEN "fwd" ELSE "bwd", n, q.b, {}), P)
=============================================================================
