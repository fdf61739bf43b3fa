----------------------------- MODULE ReaderTrace -----------------------------
(* Judges trees the real code has read: e.doc are the tokens, e.flat the     *)
(* nodes [depth, type, text] in document order.                              *)
EXTENDS Reader, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Norm(f) == [i \in DOMAIN f |-> <<f[i][1], f[i][2], f[i][3]>>]
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF Undefined(e.doc) THEN TRUE
                ELSE IF e.err # "" THEN PrintT(ToJson([line |-> l, bad |-> {"error"}, info |-> ""]))
                ELSE IF Norm(e.flat) = Flat(Read(e.doc), 0) THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> {"structure"}, info |-> Flat(Read(e.doc), 0)]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
