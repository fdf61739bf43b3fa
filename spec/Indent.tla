------------------------------- MODULE Indent -------------------------------
(* The layout of a tree that is written with indenting.                      *)
(* Elements are those of Spaces, with in addition                            *)
(*   ind   "y" if its children are indented (a block)                        *)
(*   al    the child indices (from 0) new lines may align with, in priority  *)
(*   ov    the indent if its text is the first of a line, or -1              *)
(* The layout is described line by line: the indent of a line follows from   *)
(* the blocks that are open where it starts.                                 *)
EXTENDS Spaces
\* the pieces of text and the requests in document order; a piece tells what
\* block it opens or closes, and what children (block and index) it starts
Piece(s, ov, tail, opens, closes, starts) ==
    [k |-> "T", s |-> s, ov |-> ov, tail |-> tail, opens |-> opens, closes |-> closes, starts |-> starts]
RECURSIVE LItems(_, _, _), LKids(_, _, _, _)
LKids(n, id, i, starts) ==
    IF i > Len(n.kids) THEN <<>>
    ELSE (IF i = 1 THEN <<>> ELSE <<R(Between(n, n.kids[i - 1]))>>)
         \o LItems(Kid(n, i), Append(id, i), (IF n.ind = "y" THEN {<<id, i - 1>>} ELSE {})
                                             \cup (IF i = 1 /\ n.h = "" THEN starts ELSE {}))
         \o LKids(n, id, i + 1, starts)
LItems(n, id, starts) ==
    <<R(n.sp.before)>>
    \o (IF n.h = "" THEN <<>> ELSE <<Piece(n.h, n.ov, FALSE, IF n.ind = "y" THEN id ELSE <<>>, <<>>, starts)>>
                                   \o IF n.kids # <<>> \/ n.t # "" THEN <<R(n.sp.after_head)>> ELSE <<>>)
    \o LKids(n, id, 1, starts)
    \o (IF n.t = "" THEN <<>> ELSE <<R(n.sp.before_tail), Piece(n.t, -1, TRUE, <<>>, IF n.ind = "y" THEN id ELSE <<>>, {})>>)
    \o <<R(n.sp.after)>>
\* the pieces with their line (from 1), and the offset in it (without indent)
Placed(items) ==
    FoldLeft(LAMBDA s, x :
        IF x.k = "R" THEN [s EXCEPT !.q = Best(@, x.q)]
        ELSE LET q == IF s.out = <<>> THEN None ELSE s.q
                 off == IF q[1] > 0 THEN q[2] ELSE s.off + q[2]
             IN [out |-> Append(s.out, [p |-> x, line |-> s.line + q[1], off |-> off]),
                 q |-> None, line |-> s.line + q[1], off |-> off + Len(x.s)],
        [out |-> <<>>, q |-> None, line |-> 1, off |-> 0], items).out
Top(st, start) == IF st = <<>> THEN start ELSE st[Len(st)].level
\* number of pieces at the start of a line that are closing texts
RECURSIVE Leading(_)
Leading(ps) == IF ps = <<>> \/ ~ps[1].p.tail THEN 0 ELSE 1 + Leading(SubSeq(ps, 2, Len(ps)))
\* the position of the child of a block to align with, on the line; or -1
AlignAt(ps, id, al) ==
    LET at(i) == {k \in DOMAIN ps : <<id, i>> \in ps[k].p.starts}
        c == {j \in DOMAIN al : at(al[j]) # {}} IN
    IF c = {} THEN -1 ELSE ps[CHOOSE k \in at(al[CHOOSE j \in c : \A x \in c : j <= x]) : TRUE].off
RECURSIVE AlOf(_, _)
AlOf(n, id) == IF id = <<>> THEN n.al ELSE AlOf(n.kids[id[1]], SubSeq(id, 2, Len(id)))
Text1(ps) == FoldLeft(LAMBDA s, x : [o |-> s.o \o Rep(" ", x.off - s.n) \o x.p.s, n |-> x.off + Len(x.p.s)], [o |-> "", n |-> 0], ps).o
\* ctx: width, start, max;  st: the open blocks at the start of the line with
\* the indent of their contents, outermost first
OneLine(ctx, root, ps, st) ==
    LET lead == Leading(ps)
        closed == {ps[k].p.closes : k \in DOMAIN ps}
        st1 == SelectSeq(st, LAMBDA b : b.id \notin {ps[k].p.closes : k \in 1..lead})
        ind == IF ps # <<>> /\ ps[1].p.ov >= 0 THEN ps[1].p.ov ELSE Top(st1, ctx.start)
        st2 == SelectSeq(st, LAMBDA b : b.id \notin closed)
        opened == SelectSeq(ps, LAMBDA x : x.p.opens # <<>> /\ x.p.opens \notin closed)
        st3 == FoldLeft(LAMBDA s, x :
                  LET a == AlignAt(ps, x.p.opens, AlOf(root, Tail(x.p.opens)))
                  IN Append(s, [id |-> x.p.opens, level |-> IF a >= 0 /\ a <= ctx.max THEN ind + a ELSE Top(s, ctx.start) + ctx.width]),
                  st2, opened)
    IN [ind |-> ind, st |-> st3, text |-> IF ps = <<>> THEN "" ELSE Rep(" ", ind) \o Text1(ps)]
Layout(ctx, root) ==
    LET ps == Placed(LItems(root, <<0>>, {}))
        n == IF ps = <<>> THEN 0 ELSE ps[Len(ps)].line
        F == FoldLeft(LAMBDA s, ln :
                CHOOSE v \in {[out |-> Append(s.out, l.text), inds |-> Append(s.inds, l.ind), st |-> l.st] :
                              l \in {OneLine(ctx, root, SelectSeq(ps, LAMBDA x : x.line = ln), s.st)}} : TRUE,
                [out |-> <<>>, inds |-> <<>>, st |-> <<>>], [i \in 1..n |-> i])
    IN [lines |-> F.out, inds |-> F.inds, open |-> F.st]
=============================================================================
