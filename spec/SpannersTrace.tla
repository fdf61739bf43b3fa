--------------------------- MODULE SpannersTrace ----------------------------
(* Judges what the code found: e.e the tokens, e.got the counterparts,       *)
(* e.lim: answers with a limited number of nodes [i, n, got], e.nodes: the   *)
(* number of nodes in the document.                                          *)
EXTENDS Spanners, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(x) == [i \in DOMAIN x.e |-> IF IsSpan(x.e, i) THEN Counterpart(x.e, i) ELSE 0]
\* with a limit either the counterpart or nothing is found: something if the limit is
\* the number of all nodes, nothing if not even the spanners between are within the limit
Between(e, i, j) == Cardinality({m \in Min({i, j}) + 1 .. Max({i, j}) - 1 : IsSpan(e, m) /\ ScopeOf(e, m) = ScopeOf(e, i)})
LimitOk(x, w, m) ==
    LET c == w[m.i] IN
    /\ m.got \in {0, c}
    /\ (c # 0 /\ m.n >= x.nodes) => m.got = c
    /\ (c # 0 /\ m.n <= Between(x.e, m.i, c)) => m.got = 0
Bad(x) == LET w == Want(x) IN
    (IF \E i \in DOMAIN x.e : w[i] # 0 /\ x.got[i] = 0 THEN {"not-found"} ELSE {})
    \cup (IF \E i \in DOMAIN x.e : w[i] = 0 /\ x.got[i] # 0 THEN {"found-wrongly"} ELSE {})
    \cup (IF \E i \in DOMAIN x.e : w[i] # 0 /\ x.got[i] # 0 /\ x.got[i] # w[i] THEN {"wrong-one"} ELSE {})
    \cup (IF \E k \in DOMAIN x.lim : ~LimitOk(x, w, x.lim[k]) THEN {"limit"} ELSE {})
Verdict(x) == IF x.err # "" THEN {"error"} ELSE Bad(x)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l]), info |-> IF Trace[l].err # "" THEN <<>> ELSE Want(Trace[l])]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
