----------------------------- MODULE MusicTimeMC ------------------------------
(* All small documents, and the laws of time in them. Emits the documents.   *)
EXTENDS MusicTime, TLC, Json
CONSTANTS MaxLen, Which
S(k, t) == [k |-> k, t |-> t, d |-> <<>>, a |-> <<>>, n |-> ""]
Du(k, t, d) == [S(k, t) EXCEPT !.d = d]
A(k, t, a) == [S(k, t) EXCEPT !.a = a]
N(k, t, n) == [S(k, t) EXCEPT !.n = n]
c == S("note", "c")
c8 == Du("note", "c8.", <<3, 1, 1, 1>>)
Open == S("open", "{")
Close == S("close", "}")
Sim == S("open", "<<")
EndSim == S("close", ">>")
Alphabets == <<
    {c, c8, Open, Close, Sim, EndSim},
    {c, c8, Open, Close, A("scale", "\\tuplet 3/2", <<2, 3>>), A("shift", "\\shiftDurations #1 #1", <<1, 1>>)},
    {c, c8, Open, Close, S("grace", "\\grace"), S("after", "\\afterGrace"), S("empty", "<>"), Du("empty", "<>2", <<1, 0, 1, 1>>)},
    {c, Du("note", "<c e>4*2/3", <<2, 0, 2, 3>>), S("note", "q"), Du("skip", "\\skip 8", <<3, 0, 1, 1>>), S("one", "\\skip"), Open, Close},
    {c, c8, Open, Close, N("assign", "foo =", "foo"), N("ref", "\\foo", "foo"), A("scale", "\\times 2/3", <<2, 3>>)},
    {c, c8, Open, Close, S("repeat", "\\repeat volta 2"), S("one", "\\alternative"), S("one", "\\new Staff"), S("zero", "\\time 3/4")},
    {c, c8, S("open", "\\simultaneous {"), S("open", "\\sequential {"), Open, Close, S("both", "\\partcombine")},
    {S("open", "\\figuremode {"), S("note", "<6>"), Du("note", "<5 4+>8.", <<3, 1, 1, 1>>), S("note", "r"), Open, Close, A("scale", "\\tuplet 3/2", <<2, 3>>)},
    {S("open", "\\drummode {"), S("note", "<sn hh>"), Du("note", "bd8.", <<3, 1, 1, 1>>), Sim, EndSim, Close, S("grace", "\\grace")},
    {S("open", "\\lyricmode {"), S("note", "la"), Du("note", "\"x\"8.", <<3, 1, 1, 1>>), S("note", "_"), S("com", "--"), Open, Close},
    {S("open", "\\chordmode {"), S("note", "c:m"), Du("note", "d8.:7/g", <<3, 1, 1, 1>>), S("note", "<c e>"), Du("skip", "\\skip 8", <<3, 0, 1, 1>>), Open, Close} >>
Mode(x) == x.k = "open" /\ x.t \notin {"{", "<<", "\\simultaneous {", "\\sequential {"}
VARIABLES doc, done
Init == doc = <<>> /\ done = FALSE
St == Parsed(doc).stack
Fits(x) == LET s == Last(St)
               k == IF s.node = 0 THEN "" ELSE Nodes(doc)[s.node].k IN
           /\ (x.k = "close" => k = "open" /\ ((x.t = ">>") <=> (Nodes(doc)[s.node].t = "<<")))
           /\ (x.k = "assign" => s.node = 0)
           /\ (Which > 7 => (Mode(x) <=> s.node = 0))
           \* (a single note at the toplevel is read in another way)
           /\ (x.k \in {"note", "skip", "empty", "zero", "ref"} => s.node # 0)
           /\ (s.left > 0 => x.k # "zero")
           /\ (k = "assign" => x.k \in {"open", "one", "grace", "scale", "both"})
           /\ (k = "repeat" /\ s.left = 2 => x = Open)
           /\ ((k = "repeat" /\ s.left = 1) <=> (x.t = "\\alternative"))
           /\ (k = "one" /\ Nodes(doc)[s.node].t = "\\alternative" => x = Open)
           \* \skip takes music since it is not a duration
           /\ (k = "one" => x.k \in {"open", "scale", "one", "repeat"} \/ x.t = "c")
Next == \/ ~done /\ Len(doc) < MaxLen /\ (\E x \in Alphabets[Which] : Fits(x) /\ doc' = Append(doc, x)) /\ UNCHANGED done
        \/ ~done /\ done' = TRUE /\ UNCHANGED doc
Spec == Init /\ [][Next]_<<doc, done>>
Complete == doc # <<>> /\ WellFormed(doc)
\* ------------------------------------------------------------------- the laws
Tree == Nodes(doc)
Real == {i \in DOMAIN Tree : Tree[i].k # "assign"}
\* music after each other: what follows starts where the one before it ends
Consecutive == done /\ Complete => \A p \in Real : Sequential(Tree[p]) =>
    LET kids == Below(Tree, p) IN
    /\ \A j \in 2..Len(kids) : Position(Tree, kids[j]) = End(Tree, kids[j - 1])
    /\ (kids # <<>> => End(Tree, kids[Len(kids)]) = End(Tree, p) /\ Position(Tree, kids[1]) = Position(Tree, p))
\* nothing lasts longer than what it is in
Within == done /\ Complete => \A i \in Real : Specified(Tree, i) => ~Less(End(Tree, Top(Tree, i)), End(Tree, i)) /\ ~Less(LengthOf(Tree, i), Zero)
\* durations add up
Additive == done /\ Complete => \A i, j, m \in Real : Top(Tree, i) = Top(Tree, j) /\ Top(Tree, j) = Top(Tree, m) =>
    Between(Tree, i, m) = Sub(Add(Between(Tree, i, j), Between(Tree, j, m)), LengthOf(Tree, j))
\* a scaling applies to everything
Uniform == done /\ Complete => \A i \in Real :
    Length(Tree, i, [Same EXCEPT !.scale = <<2, 3>>]) = Mul(<<2, 3>>, Length(Tree, i, Same))
Emit == done /\ Complete => PrintT(ToJson([doc |-> doc]))
=============================================================================
