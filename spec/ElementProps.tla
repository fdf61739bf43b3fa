---------------------------- MODULE ElementProps ----------------------------
(* The children of a musical element and the properties that read and write  *)
(* them. A child: [k |-> kind, v |-> its value as text, sc |-> the scalings  *)
(* (<<numerator, denominator>>) below it, for a duration].                   *)
EXTENDS Integers, Sequences, FiniteSets

Pitched == <<"Octave", "Accidental", "OctCheck">>
Timed == <<"Duration", "Articulations">>
Order(cls) ==
    CASE cls = "Note" -> Pitched \o Timed
      [] cls = "Pitch" -> Pitched
      [] cls = "PitchedRest" -> Pitched \o <<"Duration", "RestModifier", "Articulations">>
      [] cls = "Chord" -> <<"ChordBody">> \o Timed
      [] cls = "Figure" -> <<"FigureBody">> \o Timed
      [] cls \in {"Rest", "MultiMeasureRest", "Space", "Q", "Drum", "Unpitched"} -> Timed
      [] cls \in {"Skip", "LyricText", "LyricSkip"} -> <<"Duration">>
      [] cls = "LyricItem" -> <<"Content", "Duration">>
      [] cls = "Tempo" -> <<"Text", "Duration", "EqualSign", "Int">>
      [] cls = "Tuplet" -> <<"Fraction", "Duration", "Music">>
Classes == {"Note", "Pitch", "PitchedRest", "Chord", "Rest", "MultiMeasureRest", "Space", "Q", "Drum", "Unpitched", "Skip",
            "LyricText", "LyricSkip", "LyricItem", "Tempo", "Tuplet", "Figure"}
HasPitch(cls) == cls \in {"Note", "Pitch", "PitchedRest"}
HasDuration(cls) == cls # "Pitch"
\* what must be there to be written and read back on its own
Complete(cls, kids) ==
    LET ks == {kids[i].k : i \in DOMAIN kids} IN
    /\ \A i \in DOMAIN kids : kids[i].k = "Comment" => \A j \in i..Len(kids) : kids[j].k \notin {"Octave", "Accidental", "OctCheck"}
    /\ cls \in {"LyricText", "LyricSkip", "LyricItem"} => "Comment" \notin ks
    /\ CASE cls = "Chord" -> "ChordBody" \in ks
      [] cls = "Figure" -> "FigureBody" \in ks
      [] cls = "PitchedRest" -> "RestModifier" \in ks
      [] cls \in {"Unpitched", "Skip"} -> "Duration" \in ks
      [] cls = "LyricItem" -> ks \cap {"Content", "Duration"} # {}
      [] cls = "Tempo" -> {"Duration", "EqualSign", "Int"} \subseteq ks \/ (ks \ {"Comment"}) = {"Text"}
      [] cls = "Tuplet" -> {"Fraction", "Music"} \subseteq ks
      [] OTHER -> TRUE

Rank(cls, k) == IF \E i \in DOMAIN Order(cls) : Order(cls)[i] = k THEN CHOOSE i \in DOMAIN Order(cls) : Order(cls)[i] = k ELSE 0
\* in the order of the class; comments may be anywhere
Canonical(cls, kids) ==
    \A i, j \in DOMAIN kids : i < j /\ Rank(cls, kids[i].k) > 0 /\ Rank(cls, kids[j].k) > 0 => Rank(cls, kids[i].k) <= Rank(cls, kids[j].k)
Single(kids) == \A i, j \in DOMAIN kids : i # j /\ kids[i].k # "Comment" => kids[i].k # kids[j].k
Has(kids, k) == \E i \in DOMAIN kids : kids[i].k = k
At(kids, k) == CHOOSE i \in DOMAIN kids : kids[i].k = k /\ \A j \in 1..(i - 1) : kids[j].k # k
Val(kids, k, none) == IF Has(kids, k) THEN kids[At(kids, k)].v ELSE none

RECURSIVE Gcd(_, _), Product(_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Norm(q) == LET g == Gcd(q[1], q[2]) IN <<q[1] \div g, q[2] \div g>>
Product(qs) == IF qs = <<>> THEN <<1, 1>> ELSE LET r == Product(Tail(qs)) IN Norm(<<qs[1][1] * r[1], qs[1][2] * r[2]>>)
NoScale == <<0, 0>>
\* all properties as they are read
Props(kids) ==
    [octave |-> Val(kids, "Octave", "0"), accidental |-> Val(kids, "Accidental", "none"), oct_check |-> Val(kids, "OctCheck", "none"),
     duration |-> Val(kids, "Duration", "none"), scaling |-> IF Has(kids, "Duration") THEN Product(kids[At(kids, "Duration")].sc) ELSE NoScale]

Kid(k, v) == [k |-> k, v |-> v, sc |-> <<>>]
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RemoveKind(s, k) == SelectSeq(s, LAMBDA x : x.k # k)
\* every place where the order of the class is kept
Places(cls, kids, x) == {r \in {InsertAt(kids, i, x) : i \in 1..(Len(kids) + 1)} : Canonical(cls, r)}
Put(cls, kids, k, v) == IF Has(kids, k) THEN {[kids EXCEPT ![At(kids, k)].v = v]} ELSE Places(cls, kids, Kid(k, v))
Kind == [octave |-> "Octave", accidental |-> "Accidental", oct_check |-> "OctCheck", duration |-> "Duration"]
SetScale(kids, q) == [kids EXCEPT ![At(kids, "Duration")].sc = IF q \in {NoScale, <<1, 1>>} THEN <<>> ELSE <<Norm(q)>>]

\* the children lists that an operation may give; {} if it must fail
Results(cls, kids, op) ==
    CASE op.op \in {"octave", "accidental", "oct_check", "duration"} ->
            IF op.v = "none" \/ (op.op = "octave" /\ op.v = "0") THEN {RemoveKind(kids, Kind[op.op])}
            ELSE Put(cls, kids, Kind[op.op], op.v)
      [] op.op = "scaling" ->
            IF Has(kids, "Duration") THEN {SetScale(kids, op.q)} ELSE IF op.q \in {NoScale, <<1, 1>>} THEN {kids} ELSE {}
      [] op.op = "duration_scaling" ->
            IF op.v = "none" THEN {RemoveKind(kids, "Duration")} ELSE {SetScale(r, op.q) : r \in Put(cls, kids, "Duration", op.v)}
      [] op.op = "add" -> Places(cls, kids, Kid(op.k, op.v))

\* e: [cls, kids, op, failed, after, props, again (the properties after writing and reading), around]
Verdict(e) ==
    LET R == Results(e.cls, e.kids, e.op) IN
    IF R = {} THEN (IF e.failed THEN {} ELSE {"not-refused"}) \cup (IF e.after # e.kids THEN {"changed-when-refused"} ELSE {})
    ELSE (IF e.failed THEN {"failed"} ELSE IF e.after \in R THEN {} ELSE IF ~Canonical(e.cls, e.after) THEN {"order"} ELSE {"children"})
      \cup (IF ~e.failed /\ e.props # Props(e.after) THEN {"read"} ELSE {})
      \cup (IF ~e.failed /\ Complete(e.cls, e.after) /\ e.again # Props(e.after) THEN {"reread"} ELSE {})
      \cup (IF e.around THEN {} ELSE {"around"})
=============================================================================
