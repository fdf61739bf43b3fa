---------------------------- MODULE NumberingMC ----------------------------
(* Counts from 0 to Max with all notations side by side; the letter string   *)
(* is stepped by its successor.                                              *)
EXTENDS Numbering, TLC, Json
CONSTANTS Max, Bases
VARIABLES n, base, w
vars == <<n, base, w>>
Init == n = 0 /\ base \in Bases /\ w = <<>>
Next == n < Max /\ n' = n + 1 /\ w' = NextL(w, base) /\ UNCHANGED base
Spec == Init /\ [][Next]_vars
LetterValue == ValL(w, base) = n
Emit == PrintT(ToJson([n |-> n, base |-> base, letters |-> w, roman |-> Roman(n), words |-> Words(n)]))
=============================================================================
