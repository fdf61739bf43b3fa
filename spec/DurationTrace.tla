--------------------------- MODULE DurationTrace ---------------------------
EXTENDS Duration, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
AsSet(r) == IF "bits" \in DOMAIN r THEN [r EXCEPT !.bits = {r.bits[i] : i \in DOMAIN r.bits}] ELSE r
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l]  want == AnswerD(e.q) IN
                IF AsSet(e.res) = want THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> {e.q.o}, info |-> want]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
