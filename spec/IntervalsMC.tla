------------------------------ MODULE IntervalsMC ------------------------------
(* The arithmetic of pitches and intervals, and pitches to transpose by      *)
(* them, alone, added up, subtracted and back.                               *)
EXTENDS Pitches, TLC, Json
CONSTANTS Wide
Alters == IF Wide THEN -4..4 ELSE {-4, -2, 0, 1, 4}
Octaves == IF Wide THEN -1..2 ELSE {0, 1}
Written == {<<n, a, o>> : n \in 0..6, a \in Alters, o \in Octaves}
Intervals == {Minus(Absolute(w), Absolute(v)) : w \in {<<0, 0, 0>>, <<3, 2, 0>>, <<6, -2, 1>>}, v \in {<<0, 0, 0>>, <<4, -2, 1>>, <<6, 0, -1>>}}
VARIABLES w, p
Init == w \in Written /\ p \in Written
Next == FALSE /\ UNCHANGED <<w, p>>
Spec == Init /\ [][Next]_<<w, p>>
Laws == /\ PitchLaws(w, Absolute(p))
        /\ \A i, j \in Intervals : TransposeLaws(Absolute(w), i, j)
=============================================================================
