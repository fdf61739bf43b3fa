--------------------------- MODULE TreeWalkTrace ---------------------------
(* Judges recorded walks and queries on real trees.                          *)
EXTENDS TreeWalk, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l
TraceInit == l = 1
Bad(e) ==
    IF e.err # "" THEN {"failure:" \o e.q.o}
    ELSE IF Reflected(e.typ, e.q) /\ e.probe = 0 THEN {}
    ELSE IF e.res # Answer(e.kids, e.typ, e.val, e.q) THEN {"walk:" \o e.q.o} ELSE {}
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] bad == Bad(e) IN
                IF bad = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> bad, info |-> Answer(e.kids, e.typ, e.val, e.q)]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
