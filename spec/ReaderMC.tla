------------------------------ MODULE ReaderMC ------------------------------
(* All documents of at most MaxLen tokens, inside Around (an opening token   *)
(* or the input mode that encloses everything, or ""), and what is read from them. Also checks *)
(* laws of the specification itself: nothing gets lost, and the order of the *)
(* text is kept.                                                             *)
EXTENDS Reader, TLC, Json, FiniteSets
CONSTANTS MaxLen, Around, Part, Parts, Which
VARIABLES doc, done
\* small sets of tokens that have to do with each other, for longer documents
Focus == <<
    {"c", "4", "%{x%}", "\\rest", "-.", "r"},
    {"c", "\\tag #'x", "\\tweak color #red", "-.", "\"z\"", "4", "%{x%}"},
    {"\\relative", "\\transpose", "c", "%{x%}", "{", "}", "\\foo"},
    {"\\new Staff = y", "\\new Staff = \"y\"", "\\with {", "}", "{", "c", "%{x%}"},
    {"\\repeat volta 2", "\\alternative", "{", "}", "c", "%{x%}", "<<", ">>"},
    {"\\tempo", "4", "= 60", "\"z\"", "%{x%}", "8."},
    {"\\tuplet 3/2", "\\tuplet", "3/2", "4", "{", "}", "%{x%}"},
    {"foo =", "\"z\"", "%{x%}", "#'y", "\\foo", "= 60"},
    {"\\afterGrace", "3/4", "c", "{", "}", "\\grace"},
    {"\\time", "\\key", "c", "\\major", "3/4", "%{x%}", "4"},
    {"<c e>", "q", "8.", ":32", "~", "%{x%}", "(" },
    {"\\skip", "4", "-1", "\\2", "-\\foo", "\\foo"},
    {"\\set foo.bar =", "4", "#'y", "\"z\"", "\\markup \"m\"", "\\ottava", "%{x%}"},
    {"\\override X.y =", "\\revert X.y", "\\once", "#'y", "4", "c"},
    {"<<", ">>", "\\\\", "{", "}", "c", "\\simultaneous"},
    {"\\scaleDurations", "2/3", "4", "{", "}", "c", "\\shiftDurations"},
    {"\\mark", "\\default", "4", "\"z\"", "\\markup \"m\"", "%{x%}", "c"},
    {"\\partial", "4", "8.", "%{x%}", "c", "-."},
    {"e!", "\\rest", "4", "%{x%}", "-.", "f,?"},
    {"\\score {", "\\with {", "}", "{", "foo =", "\\foo", "%{x%}"},
    {"c", "4", ":m7", "/g", "-.", "%{x%}"},
    {":maj", "^3", "4", "%{x%}", "c", "\\tag #'x", "/+b"},
    {"bd", "4", "-.", "%{x%}", "\\tag #'x", "r"},
    {"la", "--", "_", "4", "%{x%}", "\"z\""},
    {"a~b", "\\markup \"m\"", "#'y", "8.", "\\foo", "%{x%}", "\\p"},
    {"__", "{", "}", "\"z\"", "4", "\\grace", "%{x%}"},
    {"<6>", "<6 4+>", "4", "%{x%}", "r", "-."},
    {"\\chordmode {", "\\lyricmode {", "{", "}", "\\notemode {", "c", "la", ":m7"},
    {"\\drummode {", "\\lyricmode {", "<<", ">>", "}", "bd", "\"z\"", "4"} >>
Opening == IF Around \in Modes THEN CHOOSE o \in Opens : ModeOf(o) = Around ELSE Around
Allowed == IF Which = 0 THEN {x \in Tokens : Allows(IF Around \in Modes THEN Around ELSE "note", x)} ELSE Focus[Which]
\* the token lists are split in parts by the number of their first token
Numbered == SetToSeq(Allowed)
Mine == {Numbered[i] : i \in {j \in DOMAIN Numbered : j % Parts = Part}}
Init == /\ doc \in {<<x>> : x \in Mine} /\ done = FALSE
Next == \/ /\ ~done /\ Len(doc) < MaxLen
           /\ \E x \in Allowed : doc' = Append(doc, x)
           /\ UNCHANGED done
        \/ /\ ~done /\ done' = TRUE /\ UNCHANGED doc
Spec == Init /\ [][Next]_<<doc, done>>
Complete == IF Around = "" THEN doc ELSE <<Opening>> \o doc \o <<CloserOf(Opening)>>
RECURSIVE CountK(_, _)
CountK(ns, ks) == FoldLeft(LAMBDA acc, n : acc + (IF n.k \in ks THEN 1 ELSE 0) + CountK(n.c, ks), 0, ns)
Occ(xs) == Len(SelectSeq(Complete, LAMBDA x : x \in xs))
Lossless == Undefined(Complete) \/
    LET t == Read(Complete) IN
    /\ CountK(t, {"MultilineComment"}) = Occ(Comments)
    /\ CountK(t, {"MusicList", "SimultaneousMusicList", "With", "Score"}) = Occ(Opens)
    /\ CountK(t, {"Duration", "Int"}) >= Occ(Durs)
    /\ CountK(t, {"Dynamic", "Slur", "Tie", "Modifier"}) = Occ({"\\p", "\\<", "(", "\\=1(", "~", "\\noBeam"})
    /\ CountK(t, {"Note", "Pitch", "PitchedRest"}) = Occ(Pitched) + 2 * Occ({"<c e>"}) + Occ(BassMods)
    /\ CountK(t, {"AddSteps", "RemoveSteps"}) = Occ(StepMods)
    /\ CountK(t, {"Drum", "Figure", "LyricText", "LyricSkip", "LyricExtender"}) = Occ(DrumMusic \cup FigureMusic \cup LyricMusic)
    /\ CountK(t, Modes) = Occ({o \in Opens : ModeOf(o) \in Modes})
    /\ CountK(t, {"Grace", "Relative", "Fixed", "Transpose", "Repeat", "Tuplet", "New", "Set", "Tag", "Tweak"})
         = Occ({"\\grace", "\\relative", "\\fixed", "\\transpose", "\\repeat volta 2", "\\tuplet 3/2", "\\new Staff",
                  "\\new Staff = \"y\"", "\\new Staff = y", "\\tuplet", "\\set foo.bar ="} \cup Events)
Emit == done => PrintT(ToJson([doc |-> Complete]))
=============================================================================
