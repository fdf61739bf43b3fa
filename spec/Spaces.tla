------------------------------- MODULE Spaces -------------------------------
(* The written text of a tree of elements, and how whitespace requests are   *)
(* combined. A request is <<newlines, spaces>>; requests are strings of only *)
(* newlines followed by only spaces.                                         *)
(*                                                                           *)
(* An element is a record                                                    *)
(*   h, t    opening and closing text ("" if there is none)                  *)
(*   sp      the five requests: before, after_head, between, before_tail,    *)
(*           after                                                           *)
(*   doc     "y" if its children are separated as those of a document        *)
(*   one     "y" if it must be followed by a new line (in a document)        *)
(*           "t" if its own request to do so is void before a text that      *)
(*           starts with a new line (field nl, "y" or "n")                   *)
(*   kids    the children                                                    *)
EXTENDS Integers, Sequences, SequencesExt
None == <<0, 0>>
\* the most preferred request: newlines first, then spaces
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Best(a, b) == IF Less(a, b) THEN b ELSE a
\* the request between two children
Between(n, a) == IF n.doc = "y" /\ a.one = "y" THEN <<1, 0>> ELSE n.sp.between
R(q) == [k |-> "R", q |-> q]
T(s) == [k |-> "T", s |-> s]
\* the document order of texts and requests
Kid(n, i) == IF n.kids[i].one = "t" /\ i < Len(n.kids) THEN IF n.kids[i + 1].nl = "y" THEN [n.kids[i] EXCEPT !.sp.after = None] ELSE n.kids[i] ELSE n.kids[i]
RECURSIVE Items(_), KidItems(_, _)
KidItems(n, i) == IF i > Len(n.kids) THEN <<>>
                  ELSE (IF i = 1 THEN <<>> ELSE <<R(Between(n, n.kids[i - 1]))>>) \o Items(Kid(n, i)) \o KidItems(n, i + 1)
Items(n) == <<R(n.sp.before)>>
            \o (IF n.h = "" THEN <<>> ELSE <<T(n.h)>> \o IF n.kids # <<>> \/ n.t # "" THEN <<R(n.sp.after_head)>> ELSE <<>>)
            \o KidItems(n, 1)
            \o (IF n.t = "" THEN <<>> ELSE <<R(n.sp.before_tail), T(n.t)>>)
            \o <<R(n.sp.after)>>
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE s \o Rep(s, n - 1)
White(q) == Rep("\n", q[1]) \o Rep(" ", q[2])
\* between two texts the best of all requests there, none at the edges
Writing(items) ==
    FoldLeft(LAMBDA s, x :
        IF x.k = "R" THEN [s EXCEPT !.q = Best(@, x.q)]
        ELSE [out |-> IF s.any THEN s.out \o White(s.q) \o x.s ELSE x.s, q |-> None, any |-> TRUE],
        [out |-> "", q |-> None, any |-> FALSE], items).out
Write(n) == Writing(Items(n))
=============================================================================
