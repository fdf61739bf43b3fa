----------------------------- MODULE SettingsTrace -----------------------------
(* Judges recorded histories of settings. e.steps: the operations, with what *)
(* was observed after each: the block (s), the value got for every name      *)
(* (got), the names listed (names) and the version.                          *)
EXTENDS Settings, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Step(acc, x) ==
    LET want == Apply(acc.s, x)
        bad == (IF x.s # want THEN {"block-after-" \o x.op} ELSE {})
               \cup (IF \E g \in Range(x.got) : g.v # Get(want, g.n) THEN {"value"} ELSE {})
               \cup (IF x.names # Names(want) THEN {"names"} ELSE {})
               \cup (IF x.version # GetVersion(want) THEN {"version"} ELSE {})
    IN [s |-> x.s, bad |-> acc.bad \cup bad, first |-> IF acc.first = <<>> /\ bad # {} THEN <<x.op, want>> ELSE acc.first]
Result(e) == FoldLeft(Step, [s |-> e.start, bad |-> {}, first |-> <<>>], e.steps)
Verdict(e) == IF e.err # "" THEN {"error"} ELSE Result(e).bad
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l]), info |-> IF Trace[l].err # "" THEN <<>> ELSE Result(Trace[l]).first]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
