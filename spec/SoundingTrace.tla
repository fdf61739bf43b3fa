----------------------------- MODULE SoundingTrace -----------------------------
(* Judges conversions of music and transpositions: e.before and e.after are  *)
(* the tokens of the text, e.lo and e.n the selected tokens (e.lo tokens     *)
(* before them and e.hi after them), e.iv the interval of a transposition.   *)
EXTENDS Sounding, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
PartBefore(e, es) == SubSeq(es, 1, e.lo)
PartAfter(e, es) == SubSeq(es, Len(es) - e.hi + 1, Len(es))
Selected(e, es) == SubSeq(es, e.lo + 1, Len(es) - e.hi)
Outside(e) == (IF PartBefore(e, e.after) # PartBefore(e, e.before) \/ PartAfter(e, e.after) # PartAfter(e, e.before) THEN {"outside"} ELSE {})
Same(e) == (IF Sound(e.before, e.first) # Sound(e.after, e.first) THEN {"sound"} ELSE {})
           \cup (IF Skeleton(Flat(e.before)) # Skeleton(Flat(e.after)) THEN {"skeleton"} ELSE {})
           \cup (IF Args(e.before) # Args(e.after) THEN {"arguments"} ELSE {})
Rel2abs(e) ==
    Same(e) \cup Outside(e)
    \cup (IF \E x \in Range2(Selected(e, e.after)) : IsRel(x) THEN {"relative"} ELSE {})
Count(es, F(_)) == Len(SelectSeq(es, F))
StartPitch(x) == IsRel(x) /\ x.p # <<>>
Abs2rel(e) ==
    Same(e) \cup Outside(e)
    \cup (IF Plain(Selected(e, e.after)) # 0 THEN {"absolute"} ELSE {})
    \cup (IF Count(e.after, StartPitch) - Count(e.before, StartPitch) # (IF e.startpitch THEN Count(e.after, IsRel) - Count(e.before, IsRel) ELSE 0)
          THEN {"start pitch"} ELSE {})
Both(e) == Same(e)
\* transposing a part: the notes in it sound higher, the text of others is kept
IsArg(e, m) == e.k = "arg" /\ e.m = m
SameName(p, q, i) == LET a == Absolute(p[1]) b == Absolute(q[1]) m == Plus(a, i)
                         d == b[2] - m[2]
                     IN d % 24 = 0 /\ (Alter(m) \in -4..4 => (b[1] - m[1]) % 7 = 0)
Notes(es) == {i \in DOMAIN es : es[i].k = "note"}
Index(es, i) == Cardinality({j \in Notes(es) : j <= i})
In(e, i) == i > e.lo /\ i <= Len(e.before) - e.hi
\* no interval of a transpose command is respelled
Exact(e) == \A i \in DOMAIN e.before : (e.before[i].k = "in" /\ e.before[i].m = "trans") =>
                \A j \in 1..2 : Alter(Plus(Absolute(e.before[i].p[j]), e.iv)) \in -4..4
TransposeAll(e) ==
    LET exact == Exact(e) b == e.before a == e.after
        sb == Sound(b, e.first)
        own == Own(b, e.first)
        sa == Sound(a, e.first)
    IN IF Skeleton(a) # Skeleton(b) THEN {"skeleton"}
       ELSE Outside(e)
            \cup (IF \E i \in Notes(b) : In(e, i) /\ (IF exact THEN ~MovedPitch(sb[Index(b, i)], sa[Index(b, i)], e.iv, own[Index(b, i)])
                                                      ELSE sa[Index(b, i)][2] # sb[Index(b, i)][2] + e.iv[2]) THEN {"sound"} ELSE {})
            \cup (IF \E i \in DOMAIN b : In(e, i) /\ (IsArg(b[i], "key") \/ IsArg(b[i], "inv")) /\ ~SameName(b[i].p, a[i].p, e.iv) THEN {"key"} ELSE {})
            \cup (IF \E i \in DOMAIN b : (IsArg(b[i], "transposition") \/ IsArg(b[i], "tuning")) /\ b[i].p # a[i].p THEN {"arguments"} ELSE {})
            \cup (IF exact /\ (\E i \in DOMAIN b : b[i].k = "note" /\ (b[i].c = NoCheck) # (a[i].c = NoCheck)) THEN {"octave check"} ELSE {})
Verdict(e) == IF e.err # "" THEN {"error"}
              ELSE CASE e.op = "rel2abs" -> Rel2abs(e)
                     [] e.op = "abs2rel" -> Abs2rel(e)
                     [] e.op = "transpose" -> TransposeAll(e)
                     [] OTHER -> Both(e)
TraceInit == l = 1
TraceNext == /\ l <= Len(Trace) /\ l' = l + 1
             /\ IF Verdict(Trace[l]) = {} THEN TRUE
                ELSE PrintT(ToJson([line |-> l, bad |-> Verdict(Trace[l])]))
TraceSpec == TraceInit /\ [][TraceNext]_l
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
