------------------------------- MODULE KeysMC -------------------------------
EXTENDS Keys, TLC, Json
CONSTANTS A
VARIABLES q
Modes == DOMAIN ModeFlats
FlatSets == {{3, 10}, {}, {1, 3, 6, 8, 10}, {3, 8, 10}, {1}}
CModes == {<<0, 0 - 1, 0, 0, 0, 0 - 1, 0 - 1>>, <<1, 0, 0 - 1, 1, 0, 0, 0 - 1>>, <<0, 0, 0 - 1, 0, 0, 0 - 1, 0>>}
Init == q = [o |-> "none"]
Al == (0 - A)..A
Next == /\ q.o = "none"
        /\ \/ \E oc \in (0 - 6)..5, n \in 0..6, a \in (0 - 4)..4 : q' = [o |-> "tomidi", oc |-> oc, n |-> n, a |-> a]
           \/ \E k \in 0..127, f \in SUBSET {1, 3, 6, 8, 10} : q' = [o |-> "frommidi", k |-> k, f |-> f]
           \/ \E off \in (0 - 9)..13 : q' = [o |-> "offset", off |-> off]
           \/ \E n \in 0..6, a \in Al, m \in Modes : q' = [o |-> "sig", n |-> n, a |-> a, m |-> m]
           \/ \E n \in 0..6, a \in Al, m \in CModes : q' = [o |-> "custom", n |-> n, a |-> a, m |-> m]
           \/ \E n \in 0..6, a \in Al, f \in FlatSets : q' = [o |-> "chrom", n |-> n, a |-> a, f |-> f]
           \/ \E sf \in (0 - 21)..21 : q' = [o |-> "tonic", sf |-> sf]
           \/ \E n \in 0..6, a \in Al, m \in Modes, f \in FlatSets : q' = [o |-> "spell", n |-> n, a |-> a, m |-> m, f |-> f]
Spec == Init /\ [][Next]_q
Want ==
    CASE q.o = "tomidi" -> Key(q.oc, q.n, q.a)
      [] q.o = "frommidi" -> PitchIn(PlainChrom(q.f), q.k)
      [] q.o = "offset" -> OffsetMode(q.off)
      [] q.o = "sig" -> Signature(q.n, q.a, q.m)
      [] q.o = "custom" -> Custom(q.n, q.a, q.m)
      [] q.o = "chrom" -> Chrom(q.n, q.a, q.f)
      [] q.o = "tonic" -> <<NoteOf(q.sf), AlterOf(q.sf)>>
      [] q.o = "spell" -> CHOOSE R \in {[k \in 1..12 |-> PitchIn(S, k - 1)] : S \in {Spell(Signature(q.n, q.a, q.m), q.n, q.a, q.f)}} : TRUE
\* laws of the specification
SoundsRight == q.o \in {"spell", "frommidi"} =>
    IF q.o = "frommidi" THEN Key(Want[1], Want[2], Want[3]) = q.k
    ELSE \A w \in {Want} : \A k \in 1..12 : Key(w[k][1], w[k][2], w[k][3]) = k - 1
\* the seven degrees of the key keep their seven letters
ScaleKept == q.o = "sig" => \A w \in {Want} : Cardinality({Class(i, w[i + 1]) : i \in 0..6}) = 7
OffsetIsMode == q.o = "offset" => \E w \in {Want} : \E m \in DOMAIN ModeFlats : w = ModeList(m)
TonicKept == q.o = "sig" => Want[q.n + 1] = q.a
Emit == q.o # "none" => PrintT(ToJson([q |-> q, want |-> Want]))
=============================================================================
