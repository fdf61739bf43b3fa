---------------------------- MODULE RangeEditMC ----------------------------
(* One edit in every iteration position of every range over every tree of up *)
(* to N nodes.  Nodes N+1 (with child N+2) and N+3 are the new nodes.        *)
EXTENDS RangeEdit, TLC, Json
CONSTANTS N
VARIABLES kids, s, e, L, pos, op, phase
vars == <<kids, s, e, L, pos, op, phase>>
NoOp == [o |-> "none", i |-> 0, j |-> 0, x |-> <<>>]
Init == kids = <<<<>>>> /\ s = 0 /\ e = 0 /\ L = 1 /\ pos = 0 /\ op = NoOp /\ phase = "grow"
Rightmost == LET RECURSIVE f(_)
                 f(n) == {n} \cup (IF kids[n] = <<>> THEN {} ELSE f(kids[n][Len(kids[n])]))
             IN f(1)
Grow == /\ phase = "grow" /\ Len(kids) < N
        /\ \E p \in Rightmost : kids' = Append([kids EXCEPT ![p] = Append(@, Len(kids) + 1)], <<>>)
        /\ UNCHANGED <<s, e, L, pos, op, phase>>
Ctx == [kids |-> kids, par |-> ParentMap(kids), top |-> 1, s |-> s, e |-> e]
CtxP(s1, e1) == [kids |-> kids, par |-> ParentMap(kids), top |-> 1, s |-> s1, e |-> e1]
Inn == {n \in DOMAIN kids \ {1} : Contained(Ctx, n)}
Start == /\ phase = "grow"
         /\ \E s1 \in {0} \cup (DOMAIN kids \ {1}), e1 \in {0} \cup (DOMAIN kids \ {1}) :
              /\ (~Empty(CtxP(s1, e1)) \/ Len(kids) = 1) = TRUE
              /\ s' = s1 /\ e' = e1
              /\ \E n \in {m \in DOMAIN kids : Visited(CtxP(s1, e1), m)} : L' = n
         /\ \E q \in {0} \cup {m \in 1..Len(kids[L']) : Visited(CtxP(s', e'), kids[L'][m])} : pos' = q
         /\ phase' = "edit" /\ UNCHANGED <<kids, op>>
A == Len(kids) + 1
NK == kids \o <<<<Len(kids) + 2>>, <<>>, <<>>>>
News == {<<>>, <<A>>, <<A, A + 2>>}
Ops == {[o |-> "set", i |-> i, j |-> 0, x |-> <<A>>] : i \in (0 - 1)..Len(kids[L])}
       \cup {[o |-> "del", i |-> i, j |-> 0, x |-> <<>>] : i \in (0 - 1)..Len(kids[L])}
       \cup {[o |-> "slice", i |-> i, j |-> j, x |-> x] : i \in {NoIdx, 0 - 1} \cup 0..Len(kids[L]),
                                                          j \in {NoIdx, 0 - 1} \cup 0..Len(kids[L]), x \in News}
Change == /\ phase = "edit" /\ \E o \in Ops : op' = o
          /\ phase' = "done" /\ UNCHANGED <<kids, s, e, L, pos>>
Next == Grow \/ Start \/ Change
Spec == Init /\ [][Next]_vars

R == Edit(kids, 1, Inn, s # 0, e # 0, L, pos, op, NK)
NKids == [NK EXCEPT ![L] = R.list]
NInn == (Inn \cap Survivors(NKids, 1)) \cup R.nin
\* coherence: the contained nodes remain one stretch of the document order
StaysInterval == phase = "done" /\ ~Fails(op, Len(kids[L])) =>
    \/ R.free # {}
    \/ IsInterval(NKids, 1, NInn)
RestIsNew == phase = "done" /\ ~Fails(op, Len(kids[L])) =>
    LET yielded == SeqRange(SubSeq(kids[L], 1, pos)) IN
    \A m \in SeqRange(Rest(NKids, NInn, L, R.pos)) : m \notin yielded
NoneSkipped == phase = "done" /\ ~Fails(op, Len(kids[L])) =>
    \A i \in DOMAIN kids[L] : i > pos /\ kids[L][i] \in SeqRange(R.list) /\ VisIn(kids, Inn, kids[L][i])
         => kids[L][i] \in SeqRange(Rest(NKids, NInn, L, R.pos))
Emit == phase = "done" =>
    IF Fails(op, Len(kids[L]))
    THEN PrintT(ToJson([kids |-> NK, s |-> s, e |-> e, L |-> L, pos |-> pos, op |-> op, fail |-> TRUE, n |-> Len(kids)]))
    ELSE PrintT(ToJson([kids |-> NK, s |-> s, e |-> e, L |-> L, pos |-> pos, op |-> op, fail |-> FALSE, n |-> Len(kids),
                        list |-> R.list, inn |-> NInn, free |-> R.free, rest |-> Rest(NKids, NInn, L, R.pos),
                        alive |-> Survivors(NKids, 1)]))
=============================================================================
