------------------------- MODULE ElementPropsTrace --------------------------
(* Judges recorded operations on elements.                                   *)
EXTENDS ElementProps, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF Verdict(e) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(e), info |-> [want |-> Results(e.cls, e.kids, e.op), props |-> Props(e.after)]]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
