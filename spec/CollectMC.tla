----------------------------- MODULE CollectMC -----------------------------
(* All short sequences over a small alphabet of items.                       *)
EXTENDS Collect, TLC, Json
CONSTANTS MaxLen
VARIABLES w
vars == <<w>>
Sym == {"a", "b", "s", "c", "f", "g", "h", "k", "m"}
NoKids(t, sg) == [types |-> t, sigs |-> sg, ign |-> FALSE, kids |-> <<>>]
TheItem(x) ==
    CASE x = "a" -> NoKids(<<"A">>, <<>>)
      [] x = "b" -> NoKids(<<"B">>, <<>>)
      [] x = "s" -> NoKids(<<"S", "A">>, <<>>)                       \* a subtype of A
      [] x = "c" -> [types |-> <<"C">>, sigs |-> <<>>, ign |-> TRUE, kids |-> <<>>]
      [] x = "f" -> NoKids(<<"F">>, << <<(<<"A">>)>> >>)
      [] x = "g" -> NoKids(<<"G">>, << <<(<<"A", "F">>), (<<"B">>)>>, <<(<<"B">>)>> >>)
      [] x = "h" -> NoKids(<<"H">>, << <<(<<"F">>), (<<"A", "G">>)>>, <<(<<"F">>), (<<"A">>), (<<"H", "B">>)>> >>)
      [] x = "k" -> [types |-> <<"K", "H">>, sigs |-> << <<(<<"A">>), (<<"B">>), (<<"A">>)>>, <<(<<"A">>), (<<"M", "F">>)>>, <<(<<"B">>)>> >>,
                     ign |-> FALSE, kids |-> <<[types |-> <<"C">>, ign |-> TRUE], [types |-> <<"A">>, ign |-> FALSE]>>]
      [] x = "m" -> NoKids(<<"M", "A">>, << <<(<<"S", "F", "M">>)>>, <<(<<"S", "K">>), (<<"B", "M">>)>> >>)
Items(v) == [j \in DOMAIN v |-> TheItem(v[j])]
Init == w = <<>>
Next == Len(w) < MaxLen /\ \E x \in Sym : w' = Append(w, x)
Spec == Init /\ [][Next]_vars
NothingLost == Keeps(Items(w))
Patterns == \A t \in RangeC(Forest(Items(w), 1)) : WellFormed(Items(w), t)
\* the start of the forest does not depend on what follows beyond its last tree
Emit == w # <<>> => PrintT(ToJson([w |-> w, forest |-> Forest(Items(w), 1)]))
EmitTable == w = <<>> => PrintT(ToJson([table |-> [x \in Sym |-> TheItem(x)]]))
=============================================================================
