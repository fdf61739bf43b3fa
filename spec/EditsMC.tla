------------------------------ MODULE EditsMC -------------------------------
(* A small document of one-letter tokens, with or without a space between,   *)
(* and a flat tree of it that is modified. Algorithm is a way to compute the *)
(* edits; the invariants say that the rules of Edits hold for it. Emits the  *)
(* histories.                                                                *)
EXTENDS Edits, TLC, Json, FiniteSets
CONSTANTS Tokens, MaxOps
VARIABLES gaps,     \* gap[i]: spaces before token i (first: 0)
          pts, hist, done
Letters == <<"a", "b", "c", "d", "e", "f">>
DocOf(g) == FoldLeft(LAMBDA s, i : s \o (IF g[i] = 0 THEN "" ELSE " ") \o Letters[i], "", [i \in 1..Len(g) |-> i])
RECURSIVE PosOf(_, _)
PosOf(g, i) == IF i = 1 THEN 0 ELSE PosOf(g, i - 1) + 1 + g[i]
Start(g) == [i \in 1..Len(g) |-> [pos |-> PosOf(g, i), end |-> PosOf(g, i) + 1, text |-> Letters[i], bare |-> Letters[i], mod |-> "n"]]
Doc == DocOf(gaps)
Init == /\ \E n \in 1..Tokens : gaps \in {g \in [1..n -> {0, 1}] : g[1] = 0}
        /\ pts = Start(gaps) /\ hist = <<>> /\ done = FALSE
Log(op, i, j, p) == hist' = Append(hist, [op |-> op, i |-> i, j |-> j]) /\ pts' = p
Del == \E i \in DOMAIN pts : Log("del", i, 0, RemoveAt(pts, i))
New == \E i \in 1..(Len(pts) + 1) : Log("new", i, 0, InsertAt(pts, i, [pos |-> -1, end |-> -1, text |-> "n", bare |-> "n", mod |-> "n"]))
Mod == \E i \in DOMAIN pts : pts[i].text # "m" /\ Log("mod", i, 0, [pts EXCEPT ![i].text = "m", ![i].bare = "m", ![i].mod = "y"])
Move == \E i, j \in DOMAIN pts : i # j /\ Log("move", i, j, InsertAt(RemoveAt(pts, i), j, pts[i]))
\* an element is replaced with a copy of itself that knows where it came from
Copy == \E i \in DOMAIN pts : Log("copy", i, 0, pts)
Next == IF Len(hist) < MaxOps THEN (Del \/ New \/ Mod \/ Move \/ Copy) /\ UNCHANGED <<gaps, done>>
        ELSE ~done /\ done' = TRUE /\ UNCHANGED <<gaps, pts, hist>>
Spec == Init /\ [][Next]_<<gaps, pts, hist, done>>
\* one way to do it
Starts == {PosOf(gaps, i) : i \in DOMAIN gaps}
LastIn(p, e) == LET s == {x \in Starts : x >= p /\ x < e} IN IF s = {} THEN p ELSE (CHOOSE x \in s : \A y \in s : y <= x) + 1
Algorithm ==
    LET step(s, pt) ==
          IF pt.pos < s.p THEN [s EXCEPT !.e = Append(@, [pos |-> s.p, end |-> s.p, text |-> " " \o pt.text]), !.ins = TRUE]
          ELSE LET d == LastIn(s.p, pt.pos)
                   e1 == IF d > s.p THEN <<[pos |-> s.p, end |-> pt.pos, text |-> " "]>>
                         ELSE IF pt.pos = s.p /\ s.ins THEN <<[pos |-> s.p, end |-> s.p, text |-> " "]>> ELSE <<>>
                   e2 == IF pt.mod = "y" THEN <<[pos |-> pt.pos, end |-> pt.end, text |-> pt.text]>> ELSE <<>>
               IN [e |-> s.e \o e1 \o e2, p |-> pt.end, ins |-> FALSE]
        r == FoldLeft(step, [e |-> <<>>, p |-> 0, ins |-> FALSE], pts)
        last == LastIn(r.p, Len(Doc))
    IN IF last > r.p THEN Append(r.e, [pos |-> r.p, end |-> last, text |-> ""]) ELSE r.e
Untouched == /\ \A i \in DOMAIN pts : pts[i].mod = "n"
             /\ [i \in DOMAIN pts |-> pts[i].pos] = [i \in DOMAIN gaps |-> PosOf(gaps, i)]
Possible == LET a == Algorithm IN
            Judge(Doc, pts, a, Apply(Doc, a), Bare(Apply(Doc, a)), Len(a), IF Untouched THEN "y" ELSE "n") = {}
Emit == done => PrintT(ToJson([gaps |-> gaps, doc |-> Doc, hist |-> hist]))
=============================================================================
