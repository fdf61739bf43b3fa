-------------------------- MODULE ElementPropsMC ----------------------------
(* The life of one element: starts empty, every operation in every state.    *)
(* Comments can be anywhere (MaxComments). Emits every transition.           *)
EXTENDS ElementProps, TLC, Json
CONSTANTS MaxComments, Cls
VARIABLES cls, kids
Sc == {NoScale, <<1, 1>>, <<2, 3>>, <<6, 4>>}
Vals(k) == CASE k = "Octave" -> {"1", "-2"} [] k = "OctCheck" -> {"0", "2"} [] k = "Accidental" -> {"forced", "cautionary"}
             [] k = "Duration" -> {"1/4", "3/8"} [] OTHER -> {"x"}
SetOps == {[op |-> o, k |-> "", v |-> v, q |-> NoScale] : o \in {"octave"}, v \in Vals("Octave") \cup {"0", "none"}}
     \cup {[op |-> o, k |-> "", v |-> v, q |-> NoScale] : o \in {"oct_check"}, v \in Vals("OctCheck") \cup {"none"}}
     \cup {[op |-> o, k |-> "", v |-> v, q |-> NoScale] : o \in {"accidental"}, v \in Vals("Accidental") \cup {"none"}}
DurOps == {[op |-> "duration", k |-> "", v |-> v, q |-> NoScale] : v \in Vals("Duration") \cup {"none"}}
     \cup {[op |-> "scaling", k |-> "", v |-> "", q |-> q] : q \in Sc}
     \cup {[op |-> "duration_scaling", k |-> "", v |-> v, q |-> q] : v \in Vals("Duration"), q \in Sc \ {NoScale}}
     \cup {[op |-> "duration_scaling", k |-> "", v |-> "none", q |-> NoScale]}
Ops(c, s) == (IF HasPitch(c) THEN SetOps ELSE {}) \cup (IF HasDuration(c) THEN DurOps ELSE {})
     \cup {[op |-> "add", k |-> k, v |-> CHOOSE v \in Vals(k) : TRUE, q |-> NoScale] :
            k \in {x \in {Order(c)[i] : i \in DOMAIN Order(c)} : ~Has(s, x)}}
Comments(s) == Cardinality({i \in DOMAIN s : s[i].k = "Comment"})
Init == /\ cls \in Cls /\ kids = <<>>
Do(op) == /\ Results(cls, kids, op) # {}
          /\ kids' \in Results(cls, kids, op)
          /\ UNCHANGED cls
\* a comment gets somewhere, as reading a text would place it
Comment == /\ Comments(kids) < MaxComments
           /\ \E i \in 1..(Len(kids) + 1) : kids' = InsertAt(kids, i, Kid("Comment", "x"))
           /\ UNCHANGED cls
Next == Comment \/ \E op \in Ops(cls, kids) : Do(op)
Spec == Init /\ [][Next]_<<cls, kids>>
\* invariants of the model
InOrder == Canonical(cls, kids) /\ Single(kids)
SetGet == \A op \in Ops(cls, kids) : \A r \in Results(cls, kids, op) :
    LET p == Props(r) IN
    /\ op.op = "octave" => p.octave = (IF op.v = "none" THEN "0" ELSE op.v)
    /\ op.op \in {"accidental", "oct_check", "duration"} => p[op.op] = op.v
    /\ op.op = "scaling" => p.scaling = (IF Has(kids, "Duration") THEN IF op.q = NoScale THEN <<1, 1>> ELSE Norm(op.q) ELSE NoScale)
    /\ \A f \in DOMAIN p : f # op.op /\ op.op \in DOMAIN p /\ ~(op.op = "duration" /\ f = "scaling") => p[f] = Props(kids)[f]
NeverStuck == \A op \in Ops(cls, kids) : Results(cls, kids, op) = {} => op.op = "scaling" /\ ~Has(kids, "Duration")
Emit == PrintT(ToJson([cls |-> cls, kids |-> kids, ops |-> Ops(cls, kids)]))
=============================================================================
