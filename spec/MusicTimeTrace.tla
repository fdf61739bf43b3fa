---------------------------- MODULE MusicTimeTrace ----------------------------
(* Judges lengths, positions and durations the real code computes.           *)
EXTENDS MusicTime, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) == IF e.err # "" THEN {"error"} ELSE Judge(e)
Explain(e) == IF e.err # "" THEN <<>>
              ELSE LET D == Nodes(e.doc) IN [i \in DOMAIN D |-> IF D[i].k = "assign" THEN <<>> ELSE <<D[i].t, Position(D, i), LengthOf(D, i)>>]
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l]), info |-> Explain(Trace[l])]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
