--------------------------- MODULE NumberingTrace ---------------------------
(* Judges recorded conversions [n, kind, base, out, back].                   *)
EXTENDS Numbering, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(e) ==
    CASE e.kind = "roman" -> (IF e.out = Roman(e.n) THEN {} ELSE {"roman"}) \cup (IF e.back = e.n THEN {} ELSE {"roman-back"})
      [] e.kind = "letters" -> (IF ValL(e.out, e.base) = e.n THEN {} ELSE {"letters"}) \cup (IF e.back = e.n THEN {} ELSE {"letters-back"})
      [] e.kind = "words" -> (IF e.out = Words(e.n) THEN {} ELSE {"words"}) \cup (IF e.back = e.n THEN {} ELSE {"words-back"})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Bad(Trace[l]) = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> Bad(Trace[l])]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
