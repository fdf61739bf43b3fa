--------------------------- MODULE LiteralsTrace ----------------------------
(* Judges literals the code read and wrote. x.k: "str" or "num", x.kind:     *)
(* "lily" or "scm". A read: x.t the text, x.v the value the code found,      *)
(* x.w the text it wrote for it, x.w2 what it wrote after reading x.w. A     *)
(* value (x.op = "new"): x.v the value given, x.w the text it wrote, x.r the *)
(* value it read from x.w. Values of numbers are [n, d, m, e].               *)
EXTENDS Literals, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Value(x, t) == IF x.k = "str" THEN StringValue(x.kind, t) ELSE NumberValue(t)
Good(x, t) == IF x.k = "str" THEN Valid(t) ELSE IsNumber(NumberValue(t))
Bad(x) ==
    IF x.op = "read" THEN
        (IF x.v # Value(x, x.t) THEN {"read"} ELSE {})
        \cup (IF ~Good(x, x.w) THEN {"write"} ELSE IF Value(x, x.w) # Value(x, x.t) THEN {"write"} ELSE {})
        \cup (IF x.w2 # x.w THEN {"again"} ELSE {})
    ELSE
        (IF ~Good(x, x.w) THEN {"write-new"} ELSE IF Value(x, x.w) # x.v THEN {"write-new"} ELSE {})
        \cup (IF x.r # x.v THEN {"read-new"} ELSE {})
Verdict(x) == IF x.err # "" THEN {"error"} ELSE Bad(x)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l]),
                     info |-> [value |-> IF Trace[l].err = "" /\ Trace[l].op = "read" THEN Value(Trace[l], Trace[l].t) ELSE Trace[l].v,
                               special |-> Trace[l].k = "str" /\ Trace[l].op = "read" /\ Special(Trace[l].t)]]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
