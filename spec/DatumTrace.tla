----------------------------- MODULE DatumTrace -----------------------------
(* Judges what the code read from and wrote for Scheme data: x.toks the      *)
(* tokens of the text, x.txt their texts, x.tree the nodes [k, p, t] of the  *)
(* code's tree, x.w the texts of the tokens it wrote, x.again: the tree read *)
(* from what it wrote is equal, x.built: so is the tree made with s() and q()*)
EXTENDS Datum, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Want(x) == [j \in DOMAIN Tree(x.toks) |-> LET n == Tree(x.toks)[j] IN [k |-> n.k, p |-> n.p, t |-> x.txt[n.i]]]
Bad(x) == (IF x.tree # Want(x) THEN {"tree"} ELSE {})
          \cup (IF x.w # x.txt THEN {"written"} ELSE {})
          \cup (IF ~x.again THEN {"again"} ELSE {})
Verdict(x) == IF x.err # "" THEN {"error"} ELSE Bad(x)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l]), info |-> IF Trace[l].err = "" THEN Want(Trace[l]) ELSE <<>>]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
