----------------------------- MODULE IntervalTrace -----------------------------
(* Judges transposers. e.ivs: the intervals [from, to] (written pitches) with*)
(* the way they were combined (e.how: "one", "sum", "difference", "there and *)
(* back", "twice"), e.in the pitches and e.out the pitches that came out.    *)
EXTENDS Pitches, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Range(s) == {s[i] : i \in DOMAIN s}
Interval(x) == Minus(Absolute(x[2]), Absolute(x[1]))
Total(e) ==
    LET a == Interval(e.ivs[1]) b == Interval(e.ivs[2])
    IN CASE e.how = "one" -> a
         [] e.how \in {"sum", "twice"} -> Plus(a, b)
         [] e.how = "difference" -> Plus(a, Inverse(b))
         [] e.how = "sum of three" -> Plus(Plus(a, b), Interval(e.ivs[3]))
         [] e.how = "sum minus" -> Plus(Plus(a, b), Inverse(Interval(e.ivs[3])))
         [] OTHER -> Zero
\* in between, a pitch may have been respelled
Between(e, p) == IF e.how \in {"twice", "there and back"} THEN Alter(Plus(p, Interval(e.ivs[1]))) \in -4..4 ELSE TRUE
Right(e, i) ==
    LET p == Absolute(e.in[i]) q == Absolute(e.out[i]) m == Plus(p, Total(e))
    IN /\ q[2] = m[2]
       /\ Alter(q) \in -4..4
       /\ Between(e, p) => q = Respell(m)
Verdict(e) == IF e.err # "" THEN {"error"}
              ELSE (IF \E i \in DOMAIN e.in : ~Right(e, i) THEN {"interval-" \o e.how} ELSE {})
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l])]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
