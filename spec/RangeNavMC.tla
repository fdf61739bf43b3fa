----------------------------- MODULE RangeNavMC -----------------------------
(* All ranges over all trees of up to N nodes, all cursor movements; per     *)
(* reachable cursor state prints the observation, every movement with its    *)
(* result, and every walk.                                                   *)
EXTENDS RangeNav, TLC, Json
CONSTANTS N, NP
VARIABLES kids, s, e, cur, ent, phase
vars == <<kids, s, e, cur, ent, phase>>
Init == kids = <<<<>>>> /\ s = 0 /\ e = 0 /\ cur = 1 /\ ent = FALSE /\ phase = "grow"
Rightmost == LET RECURSIVE f(_)
                 f(n) == {n} \cup (IF kids[n] = <<>> THEN {} ELSE f(kids[n][Len(kids[n])]))
             IN f(1)
Grow == /\ phase = "grow" /\ Len(kids) < N
        /\ \E p \in Rightmost : kids' = Append([kids EXCEPT ![p] = Append(@, Len(kids) + 1)], <<>>)
        /\ UNCHANGED <<s, e, cur, ent, phase>>
Ctx == [kids |-> kids, par |-> ParentMap(kids), top |-> 1, s |-> s, e |-> e]
P == [cur |-> cur, ent |-> ent]
Choose == /\ phase = "grow"
          /\ s' \in {0} \cup DOMAIN kids /\ e' \in {0} \cup DOMAIN kids
          /\ phase' = "run" /\ UNCHANGED <<kids, cur, ent>>
Acts == {[o |-> o, a |-> 0] : o \in {"next", "prev", "enter", "leave", "reset"}}
        \cup {[o |-> "goto", a |-> n] : n \in DOMAIN kids}
        \cup {[o |-> "index", a |-> i] : i \in 0..Len(kids)}
Run == /\ phase = "run" /\ ~Empty(Ctx)
       /\ \E a \in Acts : LET r == Move(Ctx, P, a) IN cur' = r.p.cur /\ ent' = r.p.ent
       /\ UNCHANGED <<kids, s, e, phase>>
Next == Grow \/ Choose \/ Run
Spec == Init /\ [][Next]_vars

\* ---- coherence
CursorVisited == phase = "run" /\ ~Empty(Ctx) => Visited(Ctx, cur)
WalksMeet == phase = "run" /\ ~Empty(Ctx) /\ ~ent /\ cur # 1 =>
    LET c == Ctx
        parts == <<RWalk(c, cur, "fwd", 0, {}), RWalk(c, cur, "bwd", 0, {}), RWalk(c, cur, "desc", 0, {}), RAnc(c, cur), <<cur>>>>
    IN SeqRange(Flat(parts)) = {n \in DOMAIN kids : Visited(c, n)} /\ Len(Flat(parts)) = Cardinality({n \in DOMAIN kids : Visited(c, n)})
NodesAreContained == phase = "run" /\ ~Empty(Ctx) =>
    SeqRange(RWalk(Ctx, cur, "nodes", 0, {})) = {n \in DOMAIN kids : Contained(Ctx, n)} \ {1}

typ0 == [n \in DOMAIN kids |-> n % 3]
val0 == [n \in DOMAIN kids |-> n % 2]
SetSeq(S) == LET RECURSIVE f(_)
                 f(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE m \in X : \A k \in X : m <= k IN <<m>> \o f(X \ {m})
             IN f(S)
Skips == IF Len(kids) <= NP THEN {SetSeq(S) : S \in SUBSET DOMAIN kids} ELSE {<<>>} \cup {<<n>> : n \in DOMAIN kids}
Q(o, b, p, t, inst) == [o |-> o, b |-> b, p |-> p, t |-> t, inst |-> inst]
Static == {Q(o, b, <<>>, <<>>, 0) : o \in {"in", "and"}, b \in DOMAIN kids}
          \cup {Q(o, 0, <<>>, <<>>, 0) : o \in {"bool", "full", "bounds"}}
Walks == {Q(o, u, p, <<>>, 0) : o \in {"fwd", "bwd"}, u \in {0} \cup SeqRange(RAnc(Ctx, cur)), p \in Skips}
         \cup {Q(o, 0, p, <<>>, 0) : o \in {"desc", "rdesc", "nodes", "filter"}, p \in Skips}
         \cup {Q(o, 0, <<>>, <<>>, 0) : o \in {"kids", "rkids", "anc", "extract", "fromhere", "fhextract"}}
         \cup {Q(o, 0, <<>>, t, 0) : o \in {"/", "^", "//", ">", "<", "<<", "instances"}, t \in {<<0>>, <<1>>}}
Emit == phase = "run" =>
    PrintT(ToJson([kids |-> kids, s |-> s, e |-> e, typ |-> typ0, val |-> val0, cur |-> cur, ent |-> ent,
        qs |-> IF cur # 1 THEN {} ELSE {<<q, RAnswer(Ctx, typ0, val0, cur, q)>> : q \in Static},
        ws |-> IF Empty(Ctx) \/ ent THEN {} ELSE {<<q, RAnswer(Ctx, typ0, val0, cur, q)>> : q \in Walks},
        ms |-> IF Empty(Ctx) THEN {} ELSE {<<a, Move(Ctx, P, a), Obs(Ctx, Move(Ctx, P, a).p)>> : a \in Acts}]))
=============================================================================
