------------------------------ MODULE SoundingMC ------------------------------
(* All small pieces of music.                                                *)
EXTENDS Sounding, TLC, Json
CONSTANTS MaxLen, MaxDepth
E(k, m, p, c) == [k |-> k, m |-> m, t |-> "", p |-> p, c |-> c]
Notes == {<<0, 0, 0>>, <<4, 0, 1>>, <<6, -2, 0>>, <<2, 2, -1>>}
NoteTokens == {E("note", "", <<n>>, NoCheck) : n \in Notes}
Ins == {E("in", "seq", <<>>, NoCheck)} \cup {E("in", m, <<>>, NoCheck) : m \in {"abs", "chords", "rel"}}
       \cup {E("in", "rel", <<<<2, 0, 1>>>>, NoCheck), E("in", "fix", <<<<6, 0, 1>>>>, NoCheck), E("in", "trans", <<<<0, 0, 0>>, <<6, 0, 0>>>>, NoCheck)}
Out == E("out", "", <<>>, NoCheck)
VARIABLES es, ms, chord
vars == <<es, ms, chord>>
\* music with a mode of its own contains one list
Single == ms # <<>> /\ ms[Len(ms)] # "seq"
Init == es = <<>> /\ ms = <<>> /\ chord = FALSE
Put(e) == es' = Append(es, e)
Count(f(_)) == Cardinality({i \in DOMAIN es : f(es[i])})
Next ==
    /\ Len(es) < MaxLen
    /\ \/ /\ ~chord /\ Len(ms) < MaxDepth
          /\ Len(es) + 2 * Len(ms) < MaxLen
          /\ \E e \in Ins : /\ Single => e.m = "seq"
                            /\ (IF Single THEN es[Len(es)].k # "out" ELSE TRUE)
                            /\ Put(e) /\ ms' = Append(ms, e.m)
          /\ UNCHANGED chord
       \/ /\ ~chord /\ ms # <<>>
          /\ IF ms = <<>> THEN FALSE ELSE es[Len(es)].k # "in"
          /\ Put(Out) /\ ms' = SubSeq(ms, 1, Len(ms) - 1)
          /\ UNCHANGED chord
       \/ /\ ms # <<>> /\ ~Single
          /\ \E e \in NoteTokens : Put(e)
          /\ UNCHANGED <<ms, chord>>
       \/ /\ ms # <<>> /\ ~Single /\ ~chord /\ Len(es) + Len(ms) + 3 <= MaxLen /\ "chords" \notin Range2(ms)
          /\ Put(E("chord", "", <<>>, NoCheck)) /\ chord' = TRUE
          /\ UNCHANGED ms
       \/ /\ IF chord THEN es[Len(es)].k = "note" ELSE FALSE
          /\ Put(E("end", "", <<>>, NoCheck)) /\ chord' = FALSE
          /\ UNCHANGED ms
       \/ /\ ms # <<>> /\ ~Single /\ ~chord
          /\ Put(E("check", "", <<<<0, 0, 1>>>>, NoCheck))
          /\ UNCHANGED <<ms, chord>>
\* single music has had its list
WellFormed == \A i \in DOMAIN es : (es[i].k = "in" /\ es[i].m # "seq" /\ i < Len(es)) => es[i + 1].k = "in"
OneEach == LET D(i) == Depth(es, i)
           IN \A i \in DOMAIN es : (es[i].k = "in" /\ i > 1 /\ es[i - 1].k = "out") =>
                ~\E j \in 1..i : es[j].k = "in" /\ es[j].m # "seq" /\ D(j) = D(i) - 1 /\ \A x \in j..i : D(x) >= D(j)
Complete == ms = <<>> /\ es # <<>> /\ WellFormed /\ OneEach
Spec == Init /\ [][Next]_vars
Intervals == {<<1, 4>>, <<-2, -6>>, <<7, 24>>, <<9, 34>>}
Laws == Complete => \A first \in BOOLEAN :
            /\ AbsLaw(es, first)
            /\ RelLaw(es, first)
            /\ \A i \in Intervals : MoveLaw(es, i, first)
Prune == WellFormed /\ OneEach
Emit == IF Complete /\ Len(es) >= MaxLen - 1 THEN PrintT(ToJson(es)) ELSE TRUE
=============================================================================
