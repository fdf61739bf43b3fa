--------------------------- MODULE PositionsTrace ---------------------------
(* Judges what the code found in a tree. e.t: the nodes with their own       *)
(* texts; e.spans: the recorded positions; e.texts: pairs of the written and *)
(* the original text of the nodes; e.q: questions with the answers; e.sel:   *)
(* what was in the range to edit for selections.                             *)
EXTENDS Positions, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
SeqSet(x) == {x[k] : k \in DOMAIN x}
Answer(t, s, q) ==
    CASE q.k = "child" -> <<FindChild(t, s, q.i, q.p)>>
      [] q.k = "descendants" -> Descendants(t, s, q.i, q.p, q.e)
      [] q.k = "descendant" -> LET d == Descendants(t, s, q.i, q.p, q.e) IN IF d = <<>> THEN <<0>> ELSE <<d[Len(d)]>>
      [] q.k = "right" -> <<Right(t, s, q.i, q.p)>>
      [] q.k = "left" -> <<Left(t, s, q.i, q.p)>>
Bad(e) ==
    LET s == Spans(e.t) IN
    (IF e.spans # s THEN {"position"} ELSE {})
    \cup (IF ~Ordered(e.t) THEN {"order"} ELSE {})
    \cup (IF \E k \in DOMAIN e.texts : e.texts[k][1] # e.texts[k][2] THEN {"text"} ELSE {})
    \cup {e.q[k].k : k \in {k \in DOMAIN e.q : e.q[k].r # Answer(e.t, s, e.q[k])}}
    \cup {"selection-" \o e.sel[k].how : k \in {k \in DOMAIN e.sel :
            ~RightSelection(e.t, s, e.sel[k].a, e.sel[k].b, SeqSet(e.sel[k].in), e.sel[k].whole)}}
Verdict(e) == IF e.err # "" THEN {"error"} ELSE Bad(e)
Info(e) == LET s == Spans(e.t)
               q == {k \in DOMAIN e.q : e.q[k].r # Answer(e.t, s, e.q[k])}
               x == {k \in DOMAIN e.sel : ~RightSelection(e.t, s, e.sel[k].a, e.sel[k].b, SeqSet(e.sel[k].in), e.sel[k].whole)}
           IN [q |-> IF q = {} THEN <<>> ELSE <<e.q[Min(q)], Answer(e.t, s, e.q[Min(q)])>>,
               sel |-> IF x = {} THEN <<>> ELSE <<e.sel[Min(x)], Selected(e.t, s, e.sel[Min(x)].a, e.sel[Min(x)].b)>>,
               text |-> SelectSeq(e.texts, LAMBDA x2 : x2[1] # x2[2])]
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l]), info |-> IF Trace[l].err # "" THEN <<>> ELSE <<Info(Trace[l])>>]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
