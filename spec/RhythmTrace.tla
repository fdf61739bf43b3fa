----------------------------- MODULE RhythmTrace -----------------------------
(* Judges rhythm edits of the real code.                                     *)
EXTENDS Rhythm, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) == IF e.err # "" THEN {"error"} ELSE Judge(e)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l]), info |-> IF Trace[l].err = "" THEN Effective(Units(Trace[l].old)) ELSE <<>>]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
