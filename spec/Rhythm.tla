------------------------------- MODULE Rhythm -------------------------------
(* The rhythm of a text: a sequence of tokens [k, t, d, l]: kind, text,       *)
(* written duration (<<>> or <<log, dots, num, den>>) and number of its line. *)
(* LilyPond reads a note without a duration as having the last duration that  *)
(* was written before it, whatever the structure of the music in between.     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
\* kinds: note, rest, word, str (in lyrics), chord, endchord, dur, skip, argd (a command with
\* a duration argument), com (comment), open, close, ...
Starts == {"note", "rest", "word"}
Parts == {"mod"}        \* belong to the music, after the duration
IsRest(x) == x.k = "cmd" /\ x.t = "\\rest"
\* arguments that look like notes: number of notes that follow the command
PitchArgs(x) == IF x.k # "cmd" THEN 0
                ELSE CASE x.t \in {"\\key", "\\relative", "\\fixed", "\\transposition"} -> 1
                       [] x.t = "\\transpose" -> 2
                       [] OTHER -> 0
\* things that have a duration: [at, dat, d, req, sets]
\*   at    number of the token it starts with
\*   dat   number of the duration token, or 0
\*   req   cannot do without;  sets: is repeated by the next that has none
Unit(at, dat, d, req, sets) == [at |-> at, dat |-> dat, d |-> d, req |-> req, sets |-> sets]
Start == [us |-> <<>>, wait |-> FALSE, chord |-> FALSE, args |-> 0, lyric |-> 0, depth |-> 0, wait4arg |-> FALSE]
Read1(s, i, x) ==
    IF x.k = "com" THEN s
    ELSE IF s.chord THEN IF x.k = "endchord" THEN [s EXCEPT !.chord = FALSE, !.wait = TRUE] ELSE s
    ELSE IF x.k = "chord" THEN [s EXCEPT !.us = Append(@, Unit(i, 0, <<>>, FALSE, TRUE)), !.chord = TRUE]
    ELSE IF x.k \in Starts /\ s.args > 0 THEN [s EXCEPT !.args = @ - 1, !.wait = FALSE]
    ELSE IF x.k \in Starts \/ (x.k = "str" /\ s.lyric > 0)
         THEN [s EXCEPT !.us = Append(@, Unit(i, 0, <<>>, FALSE, TRUE)), !.wait = TRUE, !.args = 0]
    ELSE IF x.k = "dur"
         THEN IF s.wait THEN [s EXCEPT !.us[Len(s.us)].dat = i, !.us[Len(s.us)].d = x.d, !.wait = FALSE]
              ELSE [s EXCEPT !.us = Append(@, Unit(i, i, x.d, TRUE, TRUE))]
    ELSE IF x.k = "skip" THEN [s EXCEPT !.us = Append(@, Unit(i, i, x.d, TRUE, FALSE)), !.wait = FALSE]
    ELSE [s EXCEPT !.wait = FALSE,
                   !.args = PitchArgs(x),
                   !.lyric = IF x.k = "cmd" /\ x.t = "\\lyricmode" THEN s.depth + 1
                             ELSE IF x.k = "close" /\ s.depth = s.lyric THEN 0 ELSE @,
                   !.depth = IF x.k = "open" THEN @ + 1 ELSE IF x.k = "close" THEN @ - 1 ELSE @]
Units(toks) == FoldLeft(LAMBDA s, i : Read1(s, i, toks[i]), Start, [i \in 1..Len(toks) |-> i]).us
Quarter == <<2, 0, 1, 1>>
\* the durations that are meant
Effective(us) ==
    FoldLeft(LAMBDA s, u : [prev |-> IF u.d # <<>> /\ u.sets THEN u.d ELSE s.prev,
                            e |-> Append(s.e, IF u.d # <<>> THEN u.d ELSE s.prev)],
             [prev |-> Quarter, e |-> <<>>], us).e
\* the duration may be left out: the next token would not be taken for it
NextReal(toks, i) == LET s == {j \in (i + 1)..Len(toks) : toks[j].k # "com"} IN
                     IF s = {} THEN 0 ELSE CHOOSE j \in s : \A m \in s : j <= m
LastPart(toks, u) ==    \* last token of the music itself
    IF u.dat # 0 THEN u.dat
    ELSE IF toks[u.at].k # "chord" THEN u.at
    ELSE CHOOSE j \in (u.at + 1)..Len(toks) : toks[j].k = "endchord" /\ \A m \in (u.at + 1)..(j - 1) : toks[m].k # "endchord"
RECURSIVE After(_, _)
After(toks, i) == LET j == NextReal(toks, i) IN
                  IF j # 0 /\ (toks[j].k \in Parts \/ IsRest(toks[j])) THEN After(toks, j) ELSE j
MayRemove(toks, u) == ~u.req /\ LET j == After(toks, LastPart(toks, u)) IN ~(j # 0 /\ toks[j].k = "dur")
\* everything but the durations of the music
Skeleton(toks, us) ==
    LET dats == {us[i].dat : i \in {j \in DOMAIN us : us[j].at # us[j].dat}}
        keep == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : i \notin dats)
    IN [n \in DOMAIN keep |-> LET x == toks[keep[n]] IN IF x.k \in {"dur", "skip", "argd"} THEN <<x.k, IF x.k = "dur" THEN "" ELSE x.t>> ELSE <<x.k, x.t>>]
Args(toks) == SelectSeq(toks, LAMBDA x : x.k = "argd")
ArgAt(toks) == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : toks[i].k = "argd")
\* ---- transforming a written duration by t = [log, dots, num, den]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Times(n, d, m, e) == LET g == Gcd(n * m, d * e) IN <<(n * m) \div g, (d * e) \div g>>
Max0(a) == IF a < 0 THEN 0 ELSE a
TransformD(t, d) == <<d[1] + t.log, Max0(d[2] + t.dots)>> \o Times(d[3], d[4], t.num, t.den)
Integer(d) == d[3] % d[4] = 0

\* ---- the verdict on an operation
\* q = [op, old, new, sel, par]: sel[i] = TRUE for the tokens that are selected,
\* new: the tokens afterwards, list: the answer of copy or what was pasted
Same(old, new, us, vs, which) ==    \* only durations of selected music may have changed
      (IF Skeleton(old, us) = Skeleton(new, vs) /\ Len(us) = Len(vs) THEN {} ELSE {"other-content"})
 \cup (IF Len(us) = Len(vs) /\ \A i \in DOMAIN us : i \notin which => us[i].d = vs[i].d THEN {} ELSE {"outside"})
ArgsSame(old, new) == IF [i \in DOMAIN Args(old) |-> Args(old)[i].d] = [i \in DOMAIN Args(new) |-> Args(new)[i].d] THEN {} ELSE {"arguments"}
EarlierWritten(us, which, i) == \E j \in which : j < i /\ us[j].d # <<>> /\ us[j].sets
FirstOnLine(toks, us, which, i) == ~\E j \in which : j < i /\ us[j].sets /\ toks[us[j].at].l = toks[us[i].at].l
Judge(q) ==
    LET us == Units(q.old)
        vs == Units(q.new)
        which == {i \in DOMAIN us : q.sel[us[i].at]}
        ed == Effective(us)
        en == Effective(vs)
        same == Same(q.old, q.new, us, vs, which)
        nth(i) == Cardinality({j \in which : j <= i})
        order == SelectSeq([i \in DOMAIN us |-> i], LAMBDA i : i \in which)
    IN IF same # {} THEN same
       ELSE IF q.op = "transform" THEN
            (IF \A i \in which : vs[i].d = IF us[i].d = <<>> THEN <<>> ELSE TransformD(q.t, us[i].d) THEN {} ELSE {"transform"})
         \cup LET a == ArgAt(q.old)
                  b == ArgAt(q.new) IN
              (IF \A i \in DOMAIN a : q.new[b[i]].d = IF ~q.sel[a[i]] THEN q.old[a[i]].d
                    ELSE IF q.old[a[i]].t = "\\tempo@=60" THEN SubSeq(TransformD(q.t, q.old[a[i]].d), 1, 2) \o <<1, 1>>
                    ELSE TransformD(q.t, q.old[a[i]].d) THEN {} ELSE {"transform-argument"})
       ELSE ArgsSame(q.old, q.new) \cup
       CASE q.op = "explicit" ->
              IF \A i \in DOMAIN us : en[i] = ed[i] /\ (i \in which => vs[i].d # <<>>) THEN {} ELSE {"explicit"}
         [] q.op = "implicit" ->
              (IF en = ed THEN {} ELSE {"meaning"})
         \cup (IF \A i \in which : vs[i].d \in {<<>>, us[i].d} THEN {} ELSE {"added"})
         \cup (IF \A i \in which : (vs[i].d # <<>> /\ MayRemove(q.old, us[i]) /\ EarlierWritten(us, which, i)) =>
                      vs[i].d # Effective(SubSeq(vs, 1, i - 1) \o <<[vs[i] EXCEPT !.d = <<>>]>>)[i] THEN {} ELSE {"repeated"})
         [] q.op = "perline" ->
              (IF en = ed THEN {} ELSE {"meaning"})
         \cup (IF \A i \in which : (FirstOnLine(q.old, us, which, i) /\ (us[i].d # <<>> \/ EarlierWritten(us, which, i))) => vs[i].d # <<>> THEN {} ELSE {"line-start"})
         \cup (IF \A i \in which : ~FirstOnLine(q.old, us, which, i) =>
                      /\ vs[i].d \in {<<>>, us[i].d}
                      /\ (vs[i].d # <<>> /\ MayRemove(q.old, us[i]) /\ EarlierWritten(us, which, i)) =>
                            vs[i].d # Effective(SubSeq(vs, 1, i - 1) \o <<[vs[i] EXCEPT !.d = <<>>]>>)[i] THEN {} ELSE {"repeated"})
         [] q.op = "remove" ->
              IF \A i \in which : vs[i].d = IF MayRemove(q.old, us[i]) THEN <<>> ELSE us[i].d THEN {} ELSE {"remove"}
         [] q.op = "scaling" ->
              IF \A i \in which : vs[i].d = IF us[i].d = <<>> THEN <<>> ELSE SubSeq(us[i].d, 1, 2) \o <<1, 1>> THEN {} ELSE {"scaling"}
         [] q.op = "fraction" ->
              IF \A i \in which : vs[i].d = IF us[i].d = <<>> \/ Integer(us[i].d) THEN us[i].d ELSE SubSeq(us[i].d, 1, 2) \o <<1, 1>> THEN {} ELSE {"scaling"}
         [] q.op = "copy" ->
              (IF [i \in DOMAIN vs |-> vs[i].d] = [i \in DOMAIN us |-> us[i].d] THEN {} ELSE {"changed"})
         \cup (IF q.list = [n \in DOMAIN order |-> us[order[n]].d] THEN {} ELSE {"list"})
         [] q.op = "copyexplicit" ->
              (IF [i \in DOMAIN vs |-> vs[i].d] = [i \in DOMAIN us |-> us[i].d] THEN {} ELSE {"changed"})
         \cup (IF q.list = [n \in DOMAIN order |-> ed[order[n]]] THEN {} ELSE {"list"})
         [] q.op \in {"paste", "pasteonce"} ->
              LET len == Len(q.list)
                  given(i) == IF len = 0 THEN <<>> ELSE q.list[((nth(i) - 1) % len) + 1]
                  \* the last pasted duration, that a note without would get
                  Prev(i) == LET s == {j \in which : j < i /\ us[j].sets /\ given(j) # <<>> /\ (q.op = "paste" \/ nth(j) <= len)} IN
                             IF s = {} THEN <<>> ELSE given(CHOOSE j \in s : \A m \in s : m <= j)
              IN IF \A i \in which :
                     vs[i].d = IF len = 0 \/ (q.op = "pasteonce" /\ nth(i) > len) THEN us[i].d
                               ELSE IF given(i) # <<>> THEN given(i)
                               ELSE IF MayRemove(q.old, us[i]) THEN <<>>
                               ELSE IF Prev(i) # <<>> THEN Prev(i) ELSE us[i].d
                 THEN {} ELSE {"pasted"}
=============================================================================
