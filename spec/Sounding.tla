------------------------------- MODULE Sounding -------------------------------
(* The pitches that music sounds, in absolute, relative and fixed notation.  *)
(*                                                                           *)
(* Music is a sequence of tokens [k, m, t, p, c]: k is "in" and "out" (the   *)
(* start and the end of music, with m how pitches are written in it: "seq",  *)
(* and "chords" in chord mode, as outside it; "rel", "abs", "fix", "trans";  *)
(* "new" a score of its own), "chord" and "end", "note" (a note or a positioned    *)
(* rest with pitch p[1] and octave check c), "check" (an octave check        *)
(* command), "arg" (the pitches p of the command m) or "text" (t).           *)
EXTENDS Pitches, SequencesExt, FiniteSets
NoCheck == 99
Through == {"seq", "chords"}
Range2(s) == {s[i] : i \in DOMAIN s}
\* frames: how to read a pitch (w), the previous pitch of relative music, the
\* interval by which the music sounds higher
Frame(w, last, iv) == [w |-> w, last |-> last, iv |-> iv, old |-> last, chord |-> FALSE, n |-> 0]
RelStart(p, first) == IF p # <<>> THEN Absolute(p[1]) ELSE IF first THEN Absolute(<<3, 0, 0>>) ELSE At(0, 0)
Enter(f, e, first) ==
    CASE e.m \in Through -> [f EXCEPT !.chord = FALSE]
      [] e.m = "rel" -> Frame("rel", RelStart(e.p, first), f.iv)
      [] e.m = "fix" -> Frame("abs", Zero, Plus(f.iv, Octave(e.p[1][3])))
      [] e.m = "trans" -> Frame("abs", Zero, Plus(f.iv, Minus(Absolute(e.p[2]), Absolute(e.p[1]))))
      [] e.m = "new" -> Frame("abs", Zero, Zero)
      [] OTHER -> Frame("abs", Zero, f.iv)              \* "abs"
Top(st) == st[Len(st)]
Pitch(f, e) ==
    IF f.w = "abs" THEN Absolute(e.p[1])
    ELSE LET q == Relative(e.p[1], f.last)
         IN IF e.c = NoCheck THEN q ELSE At(q[1] + 7 * (e.c - 1 - Floor(q[1], 7)), e.p[1][2])
Played(f, q) ==
    IF f.w = "abs" THEN f
    ELSE [f EXCEPT !.last = q, !.n = @ + 1, !.old = IF f.chord /\ f.n = 0 THEN q ELSE @]
\* a: [st, out, first]; out: the sounding pitches [k, q]
Step(a, e) ==
    LET f == Top(a.st)
        up == SubSeq(a.st, 1, Len(a.st) - 1)
    IN CASE e.k = "in" -> [a EXCEPT !.st = Append(@, Enter(f, e, a.first)), !.ms = Append(@, e.m)]
         [] e.k = "out" ->
              [a EXCEPT !.ms = SubSeq(@, 1, Len(@) - 1),
                        !.st = IF a.ms[Len(a.ms)] \in Through THEN [up EXCEPT ![Len(up)].last = f.last] ELSE up]
         [] e.k = "chord" -> [a EXCEPT !.st = Append(up, [f EXCEPT !.chord = TRUE, !.n = 0, !.old = f.last])]
         [] e.k = "end" -> [a EXCEPT !.st = Append(up, [f EXCEPT !.chord = FALSE, !.last = f.old])]
         [] e.k = "note" -> [a EXCEPT !.st = Append(up, Played(f, Pitch(f, e))), !.out = Append(@, Plus(Pitch(f, e), f.iv)),
                                !.own = Append(@, Pitch(f, e))]
         [] e.k = "check" -> [a EXCEPT !.st = Append(up, IF f.w = "abs" THEN f ELSE [f EXCEPT !.last = Absolute(e.p[1])])]
         [] OTHER -> a
Play(es, first) == FoldLeft(Step, [st |-> <<Frame("abs", Zero, Zero)>>, ms |-> <<>>, out |-> <<>>, own |-> <<>>, first |-> first], es)
\* the sounding pitches of all notes, in order
Sound(es, first) == Play(es, first).out
\* the pitches without the transpose and fixed commands around them
Own(es, first) == Play(es, first).own
\* ------------------------------------------------------- what surrounds them
\* everything but the pitches
Bare(e) == [e EXCEPT !.p = <<>>, !.c = 0]
Skeleton(es) == [i \in DOMAIN es |-> Bare(es[i])]
\* without the relative notation itself: its starts and ends and the checks
Flat(es) ==
    LET F(a, e) ==
            CASE e.k = "in" -> [ms |-> Append(a.ms, e.m), out |-> IF e.m = "rel" THEN a.out ELSE Append(a.out, e)]
              [] e.k = "out" -> [ms |-> SubSeq(a.ms, 1, Len(a.ms) - 1), out |-> IF a.ms[Len(a.ms)] = "rel" THEN a.out ELSE Append(a.out, e)]
              [] e.k = "check" -> a
              [] OTHER -> [a EXCEPT !.out = Append(@, e)]
    IN FoldLeft(F, [ms |-> <<>>, out |-> <<>>], es).out
Args(es) == SelectSeq(es, LAMBDA e : e.k = "arg")
IsRel(e) == e.k = "in" /\ e.m = "rel"
\* the notes that are absolute only because nothing says otherwise
Plain(es) ==
    LET F(a, e) ==
            CASE e.k = "in" -> [a EXCEPT !.ms = Append(@, e.m)]
              [] e.k = "out" -> [a EXCEPT !.ms = SubSeq(@, 1, Len(@) - 1)]
              [] e.k \in {"note", "chord"} -> [a EXCEPT !.n = IF a.ms # <<>> /\ a.ms[Len(a.ms)] = "seq" /\ Range2(a.ms) \subseteq Through THEN @ + 1 ELSE @]
              [] OTHER -> a
    IN FoldLeft(F, [ms |-> <<>>, n |-> 0], es).n
\* ------------------------------------------------------------ conversions
\* to absolute: relative music is replaced by what is in it
RelToAbs(es, first) ==
    LET F(a, e) ==
            LET b == Step(a.b, e)
                f == Top(a.b.st)
                o == CASE IsRel(e) -> <<>>
                       [] e.k = "out" /\ a.b.ms[Len(a.b.ms)] = "rel" -> <<>>
                       [] e.k = "check" /\ f.w = "rel" -> <<>>
                       [] e.k = "note" -> <<[e EXCEPT !.p = <<WriteAbsolute(Pitch(f, e))>>]>>
                       [] OTHER -> <<e>>
            IN [b |-> b, out |-> a.out \o o]
    IN FoldLeft(F, [b |-> Play(<<>>, first), out |-> <<>>], es).out
\* to relative: every outermost music list of notes becomes relative
Tok(k, m, p) == [k |-> k, m |-> m, t |-> "", p |-> p, c |-> NoCheck]
Depth(es, i) == Cardinality({j \in 1..i : es[j].k = "in"}) - Cardinality({j \in 1..i : es[j].k = "out"})
AbsToRel(es, first) ==
    LET F(a, e) ==
            LET b == Step(a.b, e)
                f == Top(a.b.st)
                modes == a.b.ms
                here == e.k = "in" /\ e.m = "seq" /\ a.rel = 0 /\ Range2(modes) \subseteq Through
                deep == Len(modes) + 1
                inside == a.rel > 0 /\ Range2(SubSeq(modes, a.rel, Len(modes))) \subseteq Through
                q == Absolute(e.p[1])
            IN CASE here -> [b |-> b, rel |-> deep, last |-> RelStart(<<>>, first), old |-> Zero, chord |-> FALSE, n |-> 0,
                             out |-> a.out \o <<Tok("in", "rel", <<>>), e>>]
                 [] e.k = "out" /\ a.rel = Len(modes) -> [a EXCEPT !.b = b, !.rel = 0, !.out = @ \o <<e, Tok("out", "", <<>>)>>]
                 [] inside /\ e.k = "note" -> [a EXCEPT !.b = b, !.last = q, !.n = @ + 1, !.old = IF a.chord /\ a.n = 0 THEN q ELSE @,
                                                        !.out = Append(@, [e EXCEPT !.p = <<WriteRelative(q, a.last)>>, !.c = NoCheck])]
                 [] inside /\ e.k = "chord" -> [a EXCEPT !.b = b, !.chord = TRUE, !.n = 0, !.old = a.last, !.out = Append(@, e)]
                 [] inside /\ e.k = "end" -> [a EXCEPT !.b = b, !.chord = FALSE, !.last = a.old, !.out = Append(@, e)]
                 [] inside /\ e.k = "check" -> [a EXCEPT !.b = b]
                 [] OTHER -> [a EXCEPT !.b = b, !.out = Append(@, e)]
    IN FoldLeft(F, [b |-> Play(<<>>, first), rel |-> 0, last |-> Zero, old |-> Zero, chord |-> FALSE, n |-> 0, out |-> <<>>], es).out
\* transposing: the pitches are moved where they are written
Move(w, i) == WriteAbsolute(Respell(Plus(Absolute(w), i)))
Transposed(es, i, first) ==
    LET F(a, e) ==
            LET b == Step(a.b, e)
                f == Top(a.b.st)
                g == Top(a.c.st)
                e2 == CASE e.k = "note" /\ f.w = "abs" -> [e EXCEPT !.p = <<WriteAbsolute(Respell(Plus(Pitch(f, e), i)))>>]
                        [] e.k = "note" -> [e EXCEPT !.p = <<WriteRelative(Respell(Plus(Pitch(f, e), i)), g.last)>>,
                                                     !.c = IF @ = NoCheck THEN @ ELSE Floor(Respell(Plus(Pitch(f, e), i))[1], 7) + 1]
                        [] e.k = "check" -> [e EXCEPT !.p = <<Move(e.p[1], i)>>]
                        [] e.k = "in" /\ e.m = "rel" -> [e EXCEPT !.p = <<WriteAbsolute(Respell(Plus(RelStart(e.p, first), i)))>>]
                        [] e.k = "arg" /\ e.m \in {"key", "inv"} -> [e EXCEPT !.p = <<(Move(e.p[1], i))>>]
                        [] OTHER -> e
            IN [b |-> b, c |-> Step(a.c, e2), out |-> Append(a.out, e2)]
    IN FoldLeft(F, [b |-> Play(<<>>, first), c |-> Play(<<>>, first), out |-> <<>>], es).out
\* ------------------------------------------------------------------ the laws
AbsLaw(es, first) == LET r == RelToAbs(es, first)
                     IN Sound(r, first) = Sound(es, first) /\ ~\E e \in Range2(r) : IsRel(e)
RelLaw(es, first) == LET r == AbsToRel(es, first)
                     IN Sound(r, first) = Sound(es, first) /\ Plain(r) = 0 /\ Flat(Skeleton(r)) = Flat(Skeleton(es))
\* q is p moved by i; it is respelled when w moved by i would be
MovedPitch(p, q, i, w) == LET m == Plus(p, i) IN q[2] = m[2] /\ (Alter(Plus(w, i)) \in -4..4 => q[1] = m[1])
Moved(s, r, i, w) == Len(s) = Len(r) /\ \A j \in DOMAIN s : MovedPitch(s[j], r[j], i, w[j])
MoveLaw(es, i, first) == LET r == Transposed(es, i, first) s == Sound(es, first)
                                                  IN Moved(s, Sound(r, first), i, Own(es, first))
=============================================================================
