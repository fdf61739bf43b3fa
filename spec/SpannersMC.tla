---------------------------- MODULE SpannersMC ------------------------------
(* All pieces of music with up to MaxLen tokens; the counterparts are        *)
(* coherent; every piece is printed with the counterparts.                   *)
EXTENDS Spanners, TLC, Json
CONSTANTS MaxLen, Ids, Kinds
VARIABLE e
Span(c, h, i) == [k |-> "span", c |-> c, h |-> h, id |-> i]
Scope(k) == [k |-> k, c |-> "", h |-> "", id |-> ""]
Depth == Cardinality({i \in DOMAIN e : e[i].k = "in"}) - Cardinality({i \in DOMAIN e : e[i].k = "out"})
Init == e = <<>>
Next == /\ Len(e) + Depth < MaxLen
        /\ \/ \E c \in Kinds, h \in {"start", "stop"}, i \in Ids : e' = Append(e, Span(c, h, i))
           \/ Len(e) + Depth + 1 < MaxLen /\ e' = Append(e, Scope("in"))
Leave == Depth > 0 /\ e[Len(e)].k # "in" /\ e' = Append(e, Scope("out"))
Spec == Init /\ [][Next \/ Leave]_e
All == [i \in DOMAIN e |-> IF IsSpan(e, i) THEN Counterpart(e, i) ELSE 0]
Coherent == \A i \in DOMAIN e : All[i] # 0 =>
    /\ e[All[i]].h # e[i].h
    /\ e[i].h = "start" <=> All[i] > i
    /\ Proper(e, i) => All[All[i]] = i
    \* the counterpart of the counterpart of the counterpart is the counterpart
    /\ All[All[i]] # 0 /\ All[All[All[i]]] = All[i]
Emit == IF e = <<>> \/ Depth # 0 \/ (\A i \in DOMAIN e : ~IsSpan(e, i)) THEN TRUE ELSE PrintT(ToJson([e |-> e, want |-> All]))
=============================================================================
