--------------------------- MODULE RoundTripTrace ---------------------------
(* Judges documents: x.t1, x.t2, x.t3: the tokens of the text, of what was   *)
(* written, and of what was written of that; x.same: the last two are equal  *)
(* to the letter; x.tree1, x.tree2: the trees read from the first two.       *)
EXTENDS RoundTrip, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(x) == (IF Lossless(x) THEN {} ELSE {"lossless"})
          \cup (IF SameTree(x) THEN {} ELSE {"tree"})
          \cup (IF Stable(x) THEN {} ELSE {"stable"})
Verdict(x) == IF x.err # "" THEN {"error"} ELSE Bad(x)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l]), info |-> IF Trace[l].err = "" THEN Differ(Trace[l].t1, Trace[l].t2) ELSE 0]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
