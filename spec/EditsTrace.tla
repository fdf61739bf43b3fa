----------------------------- MODULE EditsTrace -----------------------------
(* Judges edits of real documents.                                           *)
EXTENDS Edits, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) ==
    IF e.err # "" THEN {"error"}
    ELSE IF e.kind = "range" THEN JudgeRange(e.doc, e.pts, e.edits, e.from, e.to)
    ELSE Judge(e.doc, e.pts, e.edits, e.result, e.bare, e.count, e.unchanged)
         \cup (IF e.reads \notin {"same", "n/a"} THEN {"reads-differently"} ELSE {})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF Verdict(e) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(e), info |-> IF e.err = "" THEN Content(e.pts) ELSE ""]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
