---------------------------- MODULE CollectTrace ----------------------------
(* Judges recorded forests: [items, forest] with generated element types     *)
(* (ev = "types") or [kinds, labels, forest] read from text (ev = "text").   *)
EXTENDS Collect, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
RECURSIVE Label(_, _)
Label(ts, lb) == [j \in DOMAIN ts |-> [l |-> lb[ts[j].i], args |-> Label(ts[j].args, lb)]]
TheItems(e) == IF e.ev = "types" THEN e.items ELSE [j \in DOMAIN e.kinds |-> Item(e.kinds[j])]
Bad(e) == IF e.ev = "types" THEN IF Forest(e.items, 1) = e.forest THEN {} ELSE {"forest"}
          ELSE LET IT == TheItems(e) IN IF Label(Forest(IT, 1), e.labels) = e.forest THEN {} ELSE {"text-forest"}
Want(e) == LET IT == TheItems(e) IN Forest(IT, 1)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Bad(Trace[l]) = {} THEN TRUE ELSE PrintT(ToJson([line |-> l, bad |-> Bad(Trace[l]), info |-> Want(Trace[l])]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
