---------------------------- MODULE IndentTrace -----------------------------
(* Judges indented output of real trees (kind "layout"), and the effect of   *)
(* taking the newlines over from the original text (kind "newlines").        *)
EXTENDS Indent, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
\* the newlines before each piece of text
Before(n) == FoldLeft(LAMBDA s, x : IF x.k = "R" THEN [s EXCEPT !.q = Best(@, x.q)]
                                    ELSE [q |-> None, out |-> Append(s.out, s.q[1])],
                      [q |-> None, out |-> <<>>], Items(n)).out
Want(e) == Layout(e.ctx, e.tree).lines
Verdict(e) ==
    IF e.kind = "layout" THEN
      (IF e.err = "" THEN {} ELSE {"error"})
      \cup (IF e.bare = e.plain THEN {} ELSE {"lines"})
      \cup (IF e.ml = "y" \/ e.lines = Want(e) THEN {} ELSE {"indent"})
    ELSE
      LET b == Before(e.before)
          a == Before(e.after) IN
      IF Len(a) # Len(b) \/ Len(a) # Len(e.src) THEN {"shape"}
      ELSE {"newlines" : i \in {i \in DOMAIN a : a[i] # Max2(b[i], Min2(e.src[i], e.max))}}
Info(e) == IF e.kind = "layout" THEN [want |-> Want(e)] ELSE [want |-> Before(e.before)]
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ LET e == Trace[l] IN
                IF Verdict(e) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(e), info |-> Info(e)]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
