--------------------------- MODULE IncludesTrace ---------------------------
(* Judges what the code found. e.c: the files; e.q: questions [kind, place,  *)
(* n] with answers [val, at (the files of the scope)], or [got].             *)
EXTENDS Includes, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Found(c, p) == IF p = None THEN [val |-> "", at |-> <<>>] ELSE [val |-> Item(c, p).v, at |-> Files(p)]
Modes == {"major", "minor", "dorian", "lydian"}
Want(c, q) ==
    CASE q.kind = "value" -> Found(c, Search(c, q.place, q.n))
      [] q.kind = "follow" -> Found(c, Follow(c, q.place, q.n))
      [] q.kind = "length" -> [len |-> Length(c, q.place, q.n)]
      [] q.kind = "mode" -> [val |-> LET v == Found(c, Follow(c, q.place, q.n)).val IN IF v \in Modes THEN v ELSE ""]
      [] q.kind = "include" -> [file |-> Resolve(c, Files(q.place), Item(c, q.place).p)]
      [] q.kind = "urls" -> [urls |-> Tries(c, Files(q.place), Item(c, q.place).p)]
      \* without a scope only the document itself is searched
      [] q.kind = "alone" -> LET d == [c EXCEPT !.files = [f \in DOMAIN c.files |-> IF f = Last(q.place)[1] THEN @[f] ELSE [at |-> <<>>, items |-> <<>>]]]
                             IN [val |-> Found(d, Search(d, <<Last(q.place)>>, q.n)).val]
Wrong(e) == {k \in DOMAIN e.q : e.q[k].r # Want(e.c, e.q[k])}
Verdict(e) == IF e.err # "" THEN {"error"} ELSE {e.q[k].kind : k \in Wrong(e)}
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF Verdict(e) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(e),
                        info |-> IF e.err # "" THEN <<>> ELSE LET k == CHOOSE k \in Wrong(e) : \A j \in Wrong(e) : k <= j IN <<e.q[k], Want(e.c, e.q[k])>>]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
