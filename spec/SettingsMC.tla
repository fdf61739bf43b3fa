------------------------------ MODULE SettingsMC ------------------------------
(* All short histories of settings, from a few blocks to begin with.         *)
EXTENDS Settings, TLC, Json
CONSTANTS Depth
Names2 == {"a", "b"}
Values == {"1", "2"}
Com == [k |-> "com", n |-> "", v |-> "", x |-> ""]
Item == [k |-> "item", n |-> "", v |-> "", x |-> ""]
A == Var("a", "1")
B == [Var("b", "2") EXCEPT !.x = "c"]
Version == [k |-> "version", n |-> "", v |-> "1", x |-> ""]
Starts == {<<>>, <<Com>>, <<A>>, <<A, B>>, <<B, Com, A>>, <<A, Item, A>>, <<Com, B, Item>>, <<A, B, A, Com, B>>, <<Version, A>>, <<Com, Version, B>>}
Ops == {[op |-> "set", n |-> n, v |-> v] : n \in Names2, v \in Values} \cup {[op |-> "unset", n |-> n, v |-> ""] : n \in Names2}
       \cup {[op |-> "setversion", n |-> "", v |-> v] : v \in Values}
VARIABLES start, ops, s
vars == <<start, ops, s>>
Init == start \in Starts /\ ops = <<>> /\ s = start
Next == /\ Len(ops) < Depth
        /\ \E op \in Ops : ops' = Append(ops, op) /\ s' = Apply(s, op)
        /\ UNCHANGED start
Spec == Init /\ [][Next]_vars
Laws == /\ \A n, m \in Names2, v \in Values : MapLaws(s, n, m, v)
        /\ \A v \in Values : VersionLaws(s, v)
Emit == IF Len(ops) < Depth THEN TRUE ELSE PrintT(ToJson([start |-> start, ops |-> ops]))
=============================================================================
