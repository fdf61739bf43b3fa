---------------------------- MODULE ReparseTrace ----------------------------
(* Judges documents that were edited: e.got are the nodes of the tree after  *)
(* the edits, e.want those of the same text read from scratch:               *)
(* [depth, type, text, begin, end], e.doc the tokens if it is a document of  *)
(* the model.                                                                *)
EXTENDS Reader, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Shape(f) == [i \in DOMAIN f |-> <<f[i][1], f[i][2], f[i][3]>>]
Verdict(e) ==
    IF e.err # "" THEN {"error"}
    ELSE (IF e.got # e.want THEN {"differs-from-scratch"} ELSE {})
         \cup (IF e.once # "y" THEN {"node-occurs-twice"} ELSE {})
         \cup (IF e.parents # "y" THEN {"wrong-parent"} ELSE {})
         \cup (IF e.model = "y" /\ ~Undefined(e.doc) /\ Shape(e.got) # Flat(Read(e.doc), 0) THEN {"structure"} ELSE {})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF Verdict(e) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(e), info |-> ""]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
