------------------------------ MODULE DatumMC -------------------------------
(* All sequences of tokens up to a length: reading and writing are inverse.  *)
EXTENDS Datum, TLC, Json
CONSTANTS MaxLen, Kinds
VARIABLES toks, m
Init == toks = <<>> /\ m = Start
Next == /\ m.ok /\ Len(toks) < MaxLen
        /\ \E k \in Kinds : toks' = Append(toks, k) /\ m' = Step(m, k, Len(toks) + 1)
Spec == Init /\ [][Next]_<<toks, m>>
Inverse == Complete(m) => Written(m.nodes) = toks
Preorder == \A j \in DOMAIN m.nodes : m.nodes[j].p < j
Parents == \A j \in DOMAIN m.nodes : m.nodes[j].p = 0 \/ m.nodes[m.nodes[j].p].k \in Opens \cup {"quote"}
OneEach == Complete(m) => \A j \in DOMAIN m.nodes : m.nodes[j].k = "quote" => Len(KidsOf(m.nodes, j)) = 1
Emit == IF Complete(m) /\ toks # <<>> THEN PrintT(ToJson([toks |-> toks])) ELSE TRUE
=============================================================================
