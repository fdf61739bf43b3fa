---------------------------- MODULE SpacesTrace -----------------------------
(* Judges the written text of trees of real elements.                        *)
EXTENDS Spaces, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Verdict(e) == CHOOSE v \in {
      (IF e.text = w THEN {} ELSE {"text"}) \cup (IF e.copy = w THEN {} ELSE {"copy"})
      \cup (IF e.ocopy = w THEN {} ELSE {"copy-with-origin"}) \cup (IF e.err = "" THEN {} ELSE {"error"}) : w \in {Write(e.tree)}} : TRUE
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF Verdict(e) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(e), info |-> [want |-> Write(e.tree)]]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
