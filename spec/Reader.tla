------------------------------- MODULE Reader -------------------------------
(* How the tokens of LilyPond music become a tree: which music a duration, a *)
(* post event or a comment belongs to, and which arguments a command takes.  *)
(* A document is a sequence of tokens (see Text in MODULE ReaderMC for the   *)
(* place of whitespace). A node is a record [k, t, c]: its type, its own     *)
(* text and its children.                                                    *)
EXTENDS Integers, Sequences, SequencesExt
Nd(k, t, c) == [k |-> k, t |-> t, c |-> c]
Lf(k, t) == Nd(k, t, <<>>)
Add(n, cs) == [n EXCEPT !.c = @ \o cs]

\* ---- the tokens
Opens == {"{", "<<", "\\with {", "\\score {", "\\chordmode {", "\\drummode {", "\\figuremode {", "\\lyricmode {", "\\notemode {"}
\* the input mode inside an opening token; the others inherit it
ModeOf(o) ==
    CASE o = "\\chordmode {" -> "ChordMode"
      [] o = "\\drummode {" -> "DrumMode"
      [] o = "\\figuremode {" -> "FigureMode"
      [] o = "\\lyricmode {" -> "LyricMode"
      [] o = "\\notemode {" -> "NoteMode"
      [] o \in {"", "\\with {", "\\score {"} -> "note"
      [] OTHER -> "inherit"
Modes == {"ChordMode", "DrumMode", "FigureMode", "LyricMode", "NoteMode"}
ModeWord(o) ==
    CASE o = "\\chordmode {" -> "\\chordmode"
      [] o = "\\drummode {" -> "\\drummode"
      [] o = "\\figuremode {" -> "\\figuremode"
      [] o = "\\lyricmode {" -> "\\lyricmode"
      [] o = "\\notemode {" -> "\\notemode"
CloserOf(o) == IF o = "<<" THEN ">>" ELSE "}"
Closes == {"}", ">>"}
\* music that can have a duration and post events
Pitched == {"c", "d'", "e!", "f,?", "g'=''"}
Music == Pitched \cup {"q", "r", "s", "R", "<c e>", "\\skip"}
\* music of the input modes
DrumMusic == {"bd", "sn"}
FigureMusic == {"<6>", "<6 4+>", "<_- [5]>"}
LyricMusic == {"la", "a~b", "_", "__", "lyric --"}
AllMusic == Music \cup DrumMusic \cup FigureMusic \cup LyricMusic
MusicNode(x) ==
    CASE x \in DrumMusic -> Lf("Drum", x)
      [] x = "<6>" -> Nd("Figure", "", <<Nd("FigureBody", "<", <<Lf("FigureStep", "6")>>)>>)
      [] x = "<6 4+>" -> Nd("Figure", "", <<Nd("FigureBody", "<", <<Lf("FigureStep", "6"), Nd("FigureStep", "4", <<Lf("FigureAccidental", "+")>>)>>)>>)
      [] x = "<_- [5]>" -> Nd("Figure", "", <<Nd("FigureBody", "<", <<Nd("FigureSkip", "_", <<Lf("FigureAccidental", "-")>>),
                                                                   Nd("FigureBracket", "[", <<Lf("FigureStep", "5")>>)>>)>>)
      [] x = "_" -> Lf("LyricSkip", x)
      [] x = "__" -> Lf("LyricExtender", x)
      [] x = "lyric --" -> Lf("LyricHyphen", "--")
      [] x \in LyricMusic -> Lf("LyricText", x)
      [] x = "c" -> Lf("Note", "c")
      [] x = "d'" -> Nd("Note", "d", <<Lf("Octave", "'")>>)
      [] x = "e!" -> Nd("Note", "e", <<Lf("Accidental", "!")>>)
      [] x = "f,?" -> Nd("Note", "f", <<Lf("Octave", ","), Lf("Accidental", "?")>>)
      [] x = "g'=''" -> Nd("Note", "g", <<Lf("Octave", "'"), Lf("OctCheck", "=''")>>)
      [] x = "q" -> Lf("Q", "q")
      [] x = "r" -> Lf("Rest", "r")
      [] x = "s" -> Lf("Space", "s")
      [] x = "R" -> Lf("MultiMeasureRest", "R")
      [] x = "<c e>" -> Nd("Chord", "", <<Nd("ChordBody", "<", <<Lf("Note", "c"), Lf("Note", "e")>>)>>)
      [] x = "\\skip" -> Lf("Skip", "\\skip")
Durs == {"4", "8."}
Posts == {"-.", "^\"x\"", "-1", "\\p", "(", "~", "\\trill", "\\noBeam", "-\\foo", ":32", "\\=1(", "\\arpeggio", "[", "\\<", "--",
          "_\\markup \"m\"", "\\glissando", "\\startTextSpan", "\\2"}
PostNode(x) ==
    CASE x = "-." -> Nd("Direction", "-", <<Lf("Articulation", ".")>>)
      [] x = "^\"x\"" -> Nd("Direction", "^", <<Lf("String", "\"x\"")>>)
      [] x = "-1" -> Nd("Direction", "-", <<Lf("Fingering", "1")>>)
      [] x = "-\\foo" -> Nd("Direction", "-", <<Lf("IdentifierRef", "\\foo")>>)
      [] x = ":32" -> Nd("Tremolo", ":", <<Lf("Duration", "32")>>)
      [] x = "\\=1(" -> Nd("SpannerId", "\\=", <<Lf("Int", "1"), Lf("Slur", "(")>>)
      [] x = "\\arpeggio" -> Lf("Arpeggio", "\\arpeggio")
      [] x = "[" -> Lf("Beam", "[")
      [] x = "\\<" -> Lf("Dynamic", "\\<")
      [] x = "--" -> Nd("Direction", "-", <<Lf("Articulation", "-")>>)
      [] x = "_\\markup \"m\"" -> Nd("Direction", "_", <<Nd("Markup", "\\markup", <<Lf("String", "\"m\"")>>)>>)
      [] x = "\\glissando" -> Lf("Glissando", "\\glissando")
      [] x = "\\startTextSpan" -> Lf("TextSpanner", "\\startTextSpan")
      [] x = "\\2" -> Lf("Articulation", "\\2")
      [] x = "\\p" -> Lf("Dynamic", "\\p")
      [] x = "(" -> Lf("Slur", "(")
      [] x = "~" -> Lf("Tie", "~")
      [] x = "\\trill" -> Lf("Articulation", "\\trill")
      [] x = "\\noBeam" -> Lf("Modifier", "\\noBeam")
\* modifiers of a chord name
StepMods == {":m7", ":maj", "^3", ":sus4.9-"}    \* these can be continued with a number, maybe after a comment
BassMods == {"/g", "/+b"}
ChordMods == StepMods \cup BassMods
ModNode(x) ==
    CASE x = ":m7" -> Nd("AddSteps", ":", <<Lf("Qualifier", "m"), Lf("Step", "7")>>)
      [] x = ":maj" -> Nd("AddSteps", ":", <<Lf("Qualifier", "maj")>>)
      [] x = "^3" -> Nd("RemoveSteps", "^", <<Lf("Step", "3")>>)
      [] x = ":sus4.9-" -> Nd("AddSteps", ":", <<Lf("Qualifier", "sus"), Lf("Step", "4"), Lf("Separator", "."), Nd("Step", "9", <<Lf("Alteration", "-")>>)>>)
      [] x = "/g" -> Nd("Inversion", "/", <<Lf("Pitch", "g")>>)
      [] x = "/+b" -> Nd("AddInversion", "/+", <<Lf("Pitch", "b")>>)
\* a tag or tweak, that waits for an event to apply to
Events == {"\\tag #'x", "\\tweak color #red"}
EventNode(x) ==
    CASE x = "\\tag #'x" -> Nd("Tag", "\\tag", <<Nd("Scheme", "#", <<Nd("Quote", "'", <<Lf("Identifier", "x")>>)>>)>>)
      [] x = "\\tweak color #red" -> Nd("Tweak", "\\tweak", <<Lf("Symbol", "color"), Nd("Scheme", "#", <<Lf("Identifier", "red")>>)>>)
Comments == {"%{x%}"}
\* everything else stands on its own; its arguments are found later
Plain == {"\\break", "\\voiceOne", "\\major", "|", "3/4", "\\grace", "\\relative", "\\fixed", "\\transpose",
          "\\key", "\\partial", "\\ottava", "\\clef \"x\"", "\\repeat volta 2", "\\alternative", "\\tuplet 3/2",
          "\\afterGrace", "\\new Staff", "\\new Staff = \"y\"", "\\new Staff = y", "\\tuplet", "2/3", "3/2", "= 60", "\\tempo", "\\once", "foo =", "\\times 2/3", "\\unfoldRepeats",
          "\\set foo.bar =", "\\scaleDurations", "\\time", "\\partcombine", "\\mark", "\\default", "#'y", "\"z\"",
          "\\override X.y =", "\\change Staff = \"y\"", "\\bar \"x\"", "\\transposition", "\\absolute", "\\appoggiatura", "\\acciaccatura", "\\context Staff", "\\hide X", "\\omit X.y", "\\unset foo", "\\undo", "\\temporary", "\\revert X.y", "\\quoteDuring \"x\"", "\\keepWithTag #'k", "\\volta #'k", "\\unfolded", "\\simultaneous", "\\sequential", "\\breathe", "\\etc", "\\\\", "\\markup \"m\"", "\\noPageBreak", "\\autoBeamOff", "\\shiftDurations", "\\octaveCheck"}
PlainNodes(x) ==
    CASE x = "\\break" -> <<Lf("Break", x)>>
      [] x = "\\voiceOne" -> <<Lf("VoiceN", x)>>
      [] x = "\\major" -> <<Lf("Mode", x)>>
      [] x = "|" -> <<Lf("PipeSymbol", x)>>
      [] x = "3/4" -> <<Lf("Fraction", x)>>
      [] x = "\\grace" -> <<Lf("Grace", x)>>
      [] x = "\\relative" -> <<Lf("Relative", x)>>
      [] x = "\\fixed" -> <<Lf("Fixed", x)>>
      [] x = "\\transpose" -> <<Lf("Transpose", x)>>
      [] x = "\\key" -> <<Lf("Key", x)>>
      [] x = "\\partial" -> <<Lf("Partial", x)>>
      [] x = "\\ottava" -> <<Lf("Ottava", x)>>
      [] x = "\\time" -> <<Lf("Time", x)>>
      [] x = "\\once" -> <<Lf("Once", x)>>
      [] x = "\\unfoldRepeats" -> <<Lf("UnfoldRepeats", x)>>
      [] x = "\\scaleDurations" -> <<Lf("ScaleDurations", x)>>
      [] x = "\\partcombine" -> <<Lf("PartCombine", x)>>
      [] x = "\\mark" -> <<Lf("Mark", x)>>
      [] x = "\\default" -> <<Lf("Default", x)>>
      [] x = "#'y" -> <<Nd("Scheme", "#", <<Nd("Quote", "'", <<Lf("Identifier", "y")>>)>>)>>
      [] x = "\"z\"" -> <<Lf("String", x)>>
      [] x = "\\clef \"x\"" -> <<Lf("Clef", "\\clef"), Lf("String", "\"x\"")>>
      [] x = "\\repeat volta 2" -> <<Lf("Repeat", "\\repeat"), Lf("Symbol", "volta"), Lf("Int", "2")>>
      [] x = "\\alternative" -> <<Lf("Alternative", x)>>
      [] x = "\\tuplet 3/2" -> <<Lf("Tuplet", "\\tuplet"), Lf("Fraction", "3/2")>>
      [] x = "\\times 2/3" -> <<Lf("Times", "\\times"), Lf("Fraction", "2/3")>>
      [] x = "\\afterGrace" -> <<Lf("AfterGrace", x)>>
      [] x = "\\new Staff" -> <<Lf("New", "\\new"), Lf("Symbol", "Staff")>>
      [] x = "\\new Staff = \"y\"" -> <<Lf("New", "\\new"), Lf("Symbol", "Staff"), Lf("EqualSign", "="), Lf("String", "\"y\"")>>
      [] x = "\\new Staff = y" -> <<Lf("New", "\\new"), Lf("Symbol", "Staff"), Lf("EqualSign", "="), Lf("Symbol", "y")>>
      [] x = "\\tuplet" -> <<Lf("Tuplet", x)>>
      [] x \in {"2/3", "3/2"} -> <<Lf("Fraction", x)>>
      [] x = "= 60" -> <<Lf("EqualSign", "="), Lf("Int", "60")>>
      [] x = "\\tempo" -> <<Lf("Tempo", x)>>
      [] x = "foo =" -> <<Lf("Symbol", "foo"), Lf("EqualSign", "=")>>
      [] x = "\\override X.y =" -> <<Lf("Override", "\\override"), Nd("List", "", <<Lf("Symbol", "X"), Lf("Separator", "."), Lf("Symbol", "y")>>), Lf("EqualSign", "=")>>
      [] x = "\\change Staff = \"y\"" -> <<Lf("Change", "\\change"), Lf("Symbol", "Staff"), Lf("EqualSign", "="), Lf("String", "\"y\"")>>
      [] x = "\\bar \"x\"" -> <<Lf("Bar", "\\bar"), Lf("String", "\"x\"")>>
      [] x = "\\transposition" -> <<Lf("Transposition", "\\transposition")>>
      [] x = "\\absolute" -> <<Lf("Absolute", "\\absolute")>>
      [] x = "\\appoggiatura" -> <<Lf("Appoggiatura", "\\appoggiatura")>>
      [] x = "\\acciaccatura" -> <<Lf("Acciaccatura", "\\acciaccatura")>>
      [] x = "\\context Staff" -> <<Lf("Context", "\\context"), Lf("Symbol", "Staff")>>
      [] x = "\\hide X" -> <<Lf("Hide", "\\hide"), Lf("Symbol", "X")>>
      [] x = "\\omit X.y" -> <<Lf("Omit", "\\omit"), Nd("List", "", <<Lf("Symbol", "X"), Lf("Separator", "."), Lf("Symbol", "y")>>)>>
      [] x = "\\unset foo" -> <<Lf("Unset", "\\unset"), Lf("Symbol", "foo")>>
      [] x = "\\undo" -> <<Lf("Undo", "\\undo")>>
      [] x = "\\temporary" -> <<Lf("Temporary", "\\temporary")>>
      [] x = "\\revert X.y" -> <<Lf("Revert", "\\revert"), Nd("List", "", <<Lf("Symbol", "X"), Lf("Separator", "."), Lf("Symbol", "y")>>)>>
      [] x = "\\quoteDuring \"x\"" -> <<Lf("QuoteDuring", "\\quoteDuring"), Lf("String", "\"x\"")>>
      [] x = "\\keepWithTag #'k" -> <<Lf("KeepWithTag", "\\keepWithTag"), Nd("Scheme", "#", <<Nd("Quote", "'", <<Lf("Identifier", "k")>>)>>)>>
      [] x = "\\volta #'k" -> <<Lf("Volta", "\\volta"), Nd("Scheme", "#", <<Nd("Quote", "'", <<Lf("Identifier", "k")>>)>>)>>
      [] x = "\\unfolded" -> <<Lf("Unfolded", "\\unfolded")>>
      [] x = "\\simultaneous" -> <<Lf("Simultaneous", "\\simultaneous")>>
      [] x = "\\sequential" -> <<Lf("Sequential", "\\sequential")>>
      [] x = "\\breathe" -> <<Lf("Breathe", "\\breathe")>>
      [] x = "\\etc" -> <<Lf("Etc", "\\etc")>>
      [] x = "\\\\" -> <<Lf("VoiceSeparator", "\\\\")>>
      [] x = "\\markup \"m\"" -> <<Nd("Markup", "\\markup", <<Lf("String", "\"m\"")>>)>>
      [] x = "\\noPageBreak" -> <<Lf("PageBreak", "\\noPageBreak")>>
      [] x = "\\autoBeamOff" -> <<Lf("Toggle", "\\autoBeamOff")>>
      [] x = "\\shiftDurations" -> <<Lf("ShiftDurations", "\\shiftDurations")>>
      [] x = "\\octaveCheck" -> <<Lf("OctaveCheck", "\\octaveCheck")>>
      [] x = "\\set foo.bar =" -> <<Lf("Set", "\\set"), Nd("List", "", <<Lf("Symbol", "foo"), Lf("Separator", "."), Lf("Symbol", "bar")>>), Lf("EqualSign", "=")>>
Others == {"\\rest", "\\foo"}
\* what an input mode cannot contain
NoteOnly == Pitched \cup {"<c e>", "q"}
InLyrics == Opens \cup Closes \cup LyricMusic \cup Durs \cup Comments
            \cup {"--", "\"z\"", "\\markup \"m\"", "#'y", "\\foo", "\\break", "\\set foo.bar =", "\\override X.y =", "\\new Staff", "\\p", "\\repeat volta 2",
                  "\\alternative", "\\skip", "\\grace", "\\times 2/3", "\\tuplet 3/2", "\\voiceOne", "\\unset foo", "\\default", "\\mark",
                  "3/4", "\\time", "\\scaleDurations", "\\tempo"}
Allows(mode, x) ==
    CASE mode = "ChordMode" -> x \notin DrumMusic \cup FigureMusic \cup LyricMusic \cup {":32", "^\"x\"", "q"}
      [] mode = "DrumMode" -> x \notin NoteOnly \cup ChordMods \cup FigureMusic \cup LyricMusic
      [] mode = "FigureMode" -> x \notin NoteOnly \cup ChordMods \cup DrumMusic \cup LyricMusic \cup {"foo ="}
      [] mode = "LyricMode" -> x \in InLyrics
      [] OTHER -> x \notin ChordMods \cup DrumMusic \cup FigureMusic \cup LyricMusic
Tokens == Opens \cup Closes \cup ChordMods \cup (AllMusic \ {"lyric --"}) \cup Durs \cup Posts \cup Events \cup Comments \cup Plain \cup Others

\* ---- arguments that are taken
MusicKinds == {"Note", "Q", "Rest", "Space", "MultiMeasureRest", "Chord", "Skip", "PitchedRest", "Unpitched", "MusicList",
               "SimultaneousMusicList", "IdentifierRef", "Grace", "Relative", "Fixed", "Transpose", "Repeat", "Alternative",
               "Tuplet", "Time", "Key", "Tempo", "Partial", "Ottava", "New", "Clef", "Once", "Times", "AfterGrace", "UnfoldRepeats",
               "Set", "ScaleDurations", "PartCombine", "Mark", "Override", "Change", "Bar", "Transposition", "Absolute", "Appoggiatura",
               "Acciaccatura", "Context", "Hide", "Omit", "Unset", "Undo", "Temporary", "Revert", "QuoteDuring", "Volta", "Unfolded",
               "Simultaneous", "Sequential", "Breathe", "Etc", "ShiftDurations", "Tag", "KeepWithTag",
               "Drum", "Figure", "LyricText", "LyricSkip", "LyricItem"} \cup Modes
Values == {"List", "String", "Scheme", "Int", "Fraction", "Markup", "IdentifierRef", "Etc", "Unpitched"}
Is(n, cls) ==
    CASE cls = "MUSIC" -> n.k \in MusicKinds
      [] cls = "PITCH" -> n.k \in {"Note", "Pitch", "PitchedRest"}
      [] cls = "INT" -> n.k \in {"Int", "IdentifierRef", "Scheme"}
      [] cls = "NUMBER" -> n.k \in {"Scheme", "Int", "Fraction", "Unpitched"}
      [] cls = "MODE" -> n.k \in {"Mode", "IdentifierRef", "Scheme"}
      [] cls = "NAME" -> n.k \in {"Symbol", "String"}
      [] cls = "SYMBOL" -> n.k \in {"List", "Symbol", "String"}
      [] cls = "TEXT" -> n.k \in {"List", "Symbol", "String", "Markup", "IdentifierRef", "Etc"}
      [] cls = "TAG" -> n.k \in {"Symbol", "String", "Scheme"}
      [] cls = "SCALE" -> n.k \in {"Fraction", "Int", "Unpitched", "Scheme"}
      [] cls = "VALUE" -> n.k \in Values
      [] OTHER -> n.k = cls
Signatures(k) ==
    CASE k = "Tag" -> {<<"TAG", "MUSIC">>}
      [] k \in {"Int", "Step"} -> {<<"Unit">>}
      [] k = "Skip" -> {<<"MUSIC">>}
      [] k \in Modes -> {<<"MUSIC">>}
      [] k \in {"Grace", "Once", "UnfoldRepeats", "Absolute", "Appoggiatura", "Acciaccatura", "Undo", "Temporary", "Unfolded"} -> {<<"MUSIC">>}
      [] k \in {"Transposition", "OctaveCheck"} -> {<<"PITCH">>}
      [] k \in {"Hide", "Omit", "Unset"} -> {<<"SYMBOL">>}
      [] k = "Revert" -> {<<"SYMBOL">> \o [i \in 1..n |-> "Scheme"] : n \in 0..4}
      [] k \in {"Simultaneous", "Sequential"} -> {<<"LIST">>}
      [] k = "Override" -> {<<"SYMBOL", "EqualSign", "VALUE">>} \cup {<<"SYMBOL">> \o [i \in 1..n |-> "Scheme"] \o <<"EqualSign", "VALUE">> : n \in 1..4}
      [] k = "Change" -> {<<"Symbol", "EqualSign", "NAME">>}
      [] k = "Bar" -> {<<"String">>}
      [] k = "QuoteDuring" -> {<<"SYMBOL", "MUSIC">>}
      [] k = "KeepWithTag" -> {<<"TAG", "MUSIC">>}
      [] k = "Volta" -> {<<"List", "MUSIC">>, <<"Scheme", "MUSIC">>}
      [] k = "ShiftDurations" -> {<<"NUMBER", "NUMBER", "MUSIC">>}
      [] k = "PartCombine" -> {<<"MUSIC", "MUSIC">>}
      [] k = "AfterGrace" -> {<<"Fraction", "MUSIC", "MUSIC">>, <<"MUSIC", "MUSIC">>}
      [] k = "Relative" -> {<<"PITCH", "MUSIC">>, <<"MUSIC">>}
      [] k = "Fixed" -> {<<"PITCH", "MUSIC">>}
      [] k = "Transpose" -> {<<"PITCH", "PITCH", "MUSIC">>}
      [] k = "Repeat" -> {<<"Symbol", "INT", "MUSIC">>, <<"Symbol", "INT", "MUSIC", "Alternative">>}
      [] k = "Alternative" -> {<<"LIST">>}
      [] k = "Tuplet" -> {<<"Fraction", "Duration", "MUSIC">>, <<"Fraction", "Unpitched", "MUSIC">>, <<"Fraction", "MUSIC">>}
      [] k = "Times" -> {<<"Fraction", "MUSIC">>}
      [] k = "Time" -> {<<"List", "Fraction">>, <<"Fraction">>}
      [] k = "Key" -> {<<"PITCH", "MODE">>}
      [] k = "Clef" -> {<<"NAME">>}
      [] k = "Partial" -> {<<"Duration">>, <<"Unpitched">>}
      [] k = "Ottava" -> {<<"NUMBER">>}
      [] k = "ScaleDurations" -> {<<"SCALE", "MUSIC">>}
      [] k = "Mark" -> {<<"Default">>, <<"VALUE">>}
      [] k = "Tempo" -> {<<"TEXT">>, <<"TEXT", "Unpitched", "EqualSign", "Int">>, <<"Unpitched", "EqualSign", "Int">>}
      [] k = "Set" -> {<<"SYMBOL", "EqualSign", "VALUE">>}
      [] k \in {"New", "Context"} -> {<<"Symbol", "MUSIC">>, <<"Symbol", "With", "MUSIC">>, <<"Symbol", "EqualSign", "NAME", "MUSIC">>,
                       <<"Symbol", "EqualSign", "NAME", "With", "MUSIC">>}
      [] OTHER -> {}
Fits(n, cls) == IF cls = "LIST" THEN n.k \in {"MusicList", "SimultaneousMusicList"} ELSE Is(n, cls)
Left(sigs, n) == {SubSeq(s, 2, Len(s)) : s \in {x \in sigs : Len(x) > 0 /\ Fits(n, x[1])}}
IsComment(n) == n.k = "MultilineComment"
\* some commands see their arguments in another way
PitchArgs(k) == CASE k \in {"Relative", "Fixed", "Key", "Transposition", "OctaveCheck"} -> 1 [] k = "Transpose" -> 2 [] OTHER -> 0
ToDuration == {"Tuplet", "Tempo", "Partial"}
ToInt == {"Ottava", "Mark", "Set", "ScaleDurations", "Override", "ShiftDurations"}
Pitches(n) == Len(SelectSeq(n.c, LAMBDA x : Is(x, "PITCH")))
Give(p, n) ==
    IF n.k = "Note" /\ Pitches(p) < PitchArgs(p.k) THEN Add(p, <<[n EXCEPT !.k = "Pitch"]>>)
    ELSE IF n.k = "Unpitched" /\ p.k \in ToDuration THEN Add(p, n.c)
    ELSE IF n.k = "Unpitched" /\ p.k \in ToInt
         THEN IF n.c[1].t = "4" THEN Add(p, <<[n.c[1] EXCEPT !.k = "Int"]>> \o SubSeq(n.c, 2, Len(n.c))) ELSE Add(p, <<n>>)
    ELSE Add(p, <<n>>)
\* every node goes to the last command that still waits for arguments and can
\* take it; a command that cannot take it is complete, as is a command that
\* has all its arguments, and is itself handed to the command before it
RECURSIVE Hand(_, _)
Hand(st, pending) ==
    IF pending = <<>> \/ st.wait = <<>> THEN [st EXCEPT !.out = @ \o Reverse(pending)]
    ELSE LET n == pending[Len(pending)]
             rest == SubSeq(pending, 1, Len(pending) - 1)
             w == st.wait[Len(st.wait)]
             others == SubSeq(st.wait, 1, Len(st.wait) - 1)
         IN IF IsComment(n) THEN Hand([st EXCEPT !.wait = Append(others, [w EXCEPT !.n = Give(@, n)])], rest)
            ELSE LET left == Left(w.sigs, n) IN
                 IF left = {} THEN Hand([st EXCEPT !.wait = others], rest \o <<n, w.n>>)
                 ELSE LET more == left \ {<<>>}
                          got == Give(w.n, n) IN
                      IF more # {} THEN Hand([st EXCEPT !.wait = Append(others, [n |-> got, sigs |-> more])], rest)
                      ELSE Hand([st EXCEPT !.wait = others], Append(rest, got))
StillTakes(n) ==    \* the signatures of a node that already has arguments
    FoldLeft(LAMBDA sigs, c : IF IsComment(c) THEN sigs ELSE Left(sigs, c) \ {<<>>}, Signatures(n.k), n.c)
Offer(st, n) == LET s == StillTakes(n) IN
                IF s # {} THEN [st EXCEPT !.wait = Append(@, [n |-> n, sigs |-> s])] ELSE Hand(st, <<n>>)
RECURSIVE Rest(_)
Rest(st) == IF st.wait = <<>> THEN st.out
            ELSE Rest(Hand([st EXCEPT !.wait = SubSeq(@, 1, Len(@) - 1)], <<st.wait[Len(st.wait)].n>>))
Arguments(nodes) == Rest(FoldLeft(Offer, [wait |-> <<>>, out |-> <<>>], nodes))

\* ---- durations, post events and comments
None == <<>>
Idle == [mus |-> None, dur |-> "", mod |-> FALSE, modc |-> <<>>, mods |-> <<>>, arts |-> <<>>, ev |-> <<>>, com |-> <<>>, out |-> <<>>, odd |-> FALSE, last |-> ""]
RECURSIVE NTrail(_)
NTrail(c) == IF c # <<>> /\ IsComment(c[Len(c)]) THEN 1 + NTrail(SubSeq(c, 1, Len(c) - 1)) ELSE 0
Body(c) == SubSeq(c, 1, Len(c) - NTrail(c))
Trail(c) == SubSeq(c, Len(c) - NTrail(c) + 1, Len(c))
\* the comments at the end, also of the last child, are no part of it
RECURSIVE Pop(_)
Pop(c) == LET b == Body(c) IN
          IF b = <<>> THEN [c |-> b, left |-> Trail(c)]
          ELSE LET r == Pop(b[Len(b)].c) IN [c |-> [b EXCEPT ![Len(b)].c = r.c], left |-> r.left \o Trail(c)]
RECURSIVE AddToRef(_, _)
AddToRef(n, x) == IF n.k = "IdentifierRef" THEN Add(n, <<x>>) ELSE [n EXCEPT !.c[Len(n.c)] = AddToRef(@, x)]
Music1(s) == IF s.dur = "" THEN s.mus
             ELSE IF s.mus = None THEN <<Nd("Unpitched", "", <<Lf("Duration", s.dur)>>)>>
             ELSE <<Add(s.mus[1], <<Lf("Duration", s.dur)>>)>>
\* the pending music is complete
Flush(t) ==
    LET s == IF t.dur = "" /\ t.mus # None
             THEN [t EXCEPT !.mus[1].c = Body(@), !.com = Trail(t.mus[1].c) \o @] ELSE t
        m == Music1(s)
        a == IF s.mod THEN [c |-> s.com \o <<Lf("RestModifier", "\\rest")>>, left |-> s.modc]
             ELSE IF s.mods # <<>> THEN [c |-> s.com \o <<Nd("ChordModifiers", "", Pop(s.mods).c)>>, left |-> Pop(s.mods).left]
             ELSE [c |-> <<>>, left |-> s.com]
        b == IF s.arts # <<>> THEN [c |-> a.c \o a.left \o <<Nd("Articulations", "", Pop(s.arts).c)>>, left |-> Pop(s.arts).left] ELSE a
        new == IF m # None THEN <<Add(m[1], b.c)>> \o b.left
               ELSE IF s.arts # <<>> THEN <<Nd("Articulations", "", Pop(s.arts).c)>> \o Pop(s.arts).left
               ELSE <<>>
    IN [Idle EXCEPT !.out = s.out \o new \o s.ev, !.odd = s.odd]
\* a post event, also to be used by the tags and tweaks before it
RECURSIVE Nest(_, _)
Nest(ev, n) == IF ev = <<>> THEN n ELSE Nest(SubSeq(ev, 1, Len(ev) - 1), Add(ev[Len(ev)], <<n>>))
Attach(s, n) == [s EXCEPT !.arts = Append(@, Nest(s.ev, n)), !.ev = <<>>]
Out(s, n) == LET f == Flush(s) IN [f EXCEPT !.out = Append(@, n)]
Names == {"\\foo", "-\\foo"}
Step1(s, it) ==
    IF it.node # None THEN FoldLeft(Out, s, it.node)      \* a block
    ELSE LET x == it.tok IN
      CASE x \in AllMusic -> [Flush(s) EXCEPT !.mus = IF it.obj # None THEN it.obj ELSE <<MusicNode(x)>>]
        [] x \in Durs -> LET f == IF s.dur # "" \/ s.mod \/ s.mods # <<>> \/ s.arts # <<>> THEN Flush(s) ELSE s
                         IN [f EXCEPT !.dur = x, !.odd = @ \/ s.ev # <<>>]
        [] x \in ChordMods -> IF s.mus # None /\ s.arts = <<>> THEN [s EXCEPT !.mods = Append(@, ModNode(x)), !.odd = @ \/ s.mod]
                               ELSE LET f == Flush(s) IN
                                    IF x \in BassMods THEN [f EXCEPT !.out = Append(@, ModNode(x))]
                                    ELSE [f EXCEPT !.out = @ \o <<[ModNode(x) EXCEPT !.c = <<>>]>> \o ModNode(x).c]
        [] x = "-1" -> IF s.mus = None /\ s.dur = "" THEN Out(s, Lf("Int", "-1")) ELSE Attach(s, PostNode(x))
        [] x \in Posts \ {"-1"} -> Attach(s, PostNode(x))
        [] x \in Events -> [s EXCEPT !.ev = Append(@, EventNode(x))]
        [] x = "\\rest" -> IF s.mus # None /\ s.mus[1].k = "Note" /\ s.arts = <<>> /\ s.mods = <<>>
                           THEN [s EXCEPT !.mus[1].k = "PitchedRest", !.mod = TRUE]
                           ELSE [s EXCEPT !.odd = TRUE]
        [] x \in Comments -> LET n == Lf("MultilineComment", x) IN
                             \* a name can be continued after a comment: \foo %{x%} .bar
                             IF s.last \in Names /\ s.arts # <<>> THEN [s EXCEPT !.arts[Len(s.arts)] = AddToRef(@, n)]
                             ELSE IF s.last \in Names THEN [s EXCEPT !.out[Len(s.out)] = Add(@, <<n>>)]
                             ELSE IF s.last \in StepMods
                             THEN IF s.mods # <<>> THEN [s EXCEPT !.mods[Len(s.mods)] = Add(@, <<n>>)] ELSE [s EXCEPT !.out = Append(@, n)]
                             \* a pitch can be continued: c %{x%} '
                             ELSE IF s.last \in Pitched THEN [s EXCEPT !.mus[1] = Add(@, <<n>>)]
                             ELSE IF s.ev # <<>> THEN [s EXCEPT !.ev[Len(s.ev)] = Add(@, <<n>>)]
                             ELSE IF s.arts # <<>> THEN [s EXCEPT !.arts = Append(@, n)]
                             ELSE IF s.mods # <<>> THEN [s EXCEPT !.mods = Append(@, n)]
                             ELSE IF s.mod THEN [s EXCEPT !.modc = Append(@, n)]
                             ELSE IF s.dur # "" THEN [s EXCEPT !.com = Append(@, n)]
                             ELSE IF s.mus # None THEN [s EXCEPT !.mus[1] = Add(@, <<n>>)]
                             ELSE [s EXCEPT !.out = Append(@, n)]
        [] x = "\\foo" -> IF s.ev # <<>> /\ (s.mus # None \/ s.dur # "") THEN Attach(s, Lf("IdentifierRef", x)) ELSE Out(s, Lf("IdentifierRef", x))
        [] x \in {"#'y", "\"z\"", "\\markup \"m\""} -> IF s.ev # <<>> THEN Attach(s, PlainNodes(x)[1]) ELSE Out(s, PlainNodes(x)[1])
        [] x \in Plain \ {"#'y", "\"z\"", "\\markup \"m\""} -> LET f == Flush(s) IN [f EXCEPT !.out = @ \o PlainNodes(x), !.odd = @ \/ (s.ev # <<>> /\ Len(PlainNodes(x)) > 1)]
Value == {"foo =", "\\set foo.bar =", "\\override X.y ="}    \* here a value follows, no note
Step(s, it) == [Step1(s, it) EXCEPT !.last = IF it.tok \in Comments /\ s.last \in Names \cup Pitched \cup Value \cup StepMods THEN s.last ELSE it.tok,
                                    !.odd = @ \/ (s.last \in Value /\ it.tok \in AllMusic \cup Durs) \/ (s.last \in Pitched \cup BassMods /\ it.tok = "= 60")
                                              \* a number after it would be a step
                                              \/ (s.last \in StepMods /\ it.tok \in Durs \cup {"3/4", "2/3", "3/2"})]
Builder(items) == Flush(FoldLeft(Step, Idle, items))
ReadItems(items) == Arguments(Builder(items).out)
Odd(items) == Builder(items).odd

\* ---- assignments
\* name = value
RECURSIVE Assign(_)
NextReal(ns, i) == LET s == {j \in i..Len(ns) : ~IsComment(ns[j])} IN IF s = {} THEN 0 ELSE CHOOSE j \in s : \A m \in s : j <= m
Assign(ns) ==
    IF ns = <<>> THEN <<>>
    ELSE IF ns[1].k \notin {"List", "Symbol", "String"} THEN <<ns[1]>> \o Assign(Tail(ns))
    ELSE LET i == NextReal(ns, 2)
             j == IF i = 0 THEN 0 ELSE NextReal(ns, i + 1)
         IN IF i = 0 THEN ns
            ELSE IF ns[i].k # "EqualSign" THEN SubSeq(ns, 1, i) \o Assign(SubSeq(ns, i + 1, Len(ns)))
            ELSE IF j = 0 THEN ns
            ELSE <<Nd("Assignment", "", <<Nd("Identifier", "", IF ns[1].k = "List" THEN ns[1].c ELSE <<ns[1]>>)>> \o SubSeq(ns, 2, j))>>
                 \o Assign(SubSeq(ns, j + 1, Len(ns)))

\* ---- lyrics
\* a text, a scheme value or a markup is a syllable, which can have a duration
RECURSIVE Lyrics(_, _, _)
Lyrics(ns, p, com) ==
    IF ns = <<>> THEN p \o com
    ELSE LET n == ns[1] IN
         IF p # None /\ IsComment(n) THEN Lyrics(Tail(ns), p, Append(com, n))
         ELSE IF n.k = "Unpitched"
         THEN <<Add(IF p # None THEN p[1] ELSE Lf("LyricItem", ""), com \o n.c)>> \o Lyrics(Tail(ns), None, <<>>)
         ELSE IF n.k \in {"String", "Symbol", "Scheme", "Markup"}
         THEN p \o com \o Lyrics(Tail(ns), <<Nd("LyricItem", "", <<n>>)>>, <<>>)
         ELSE p \o com \o <<n>> \o Lyrics(Tail(ns), None, <<>>)
\* ---- blocks
Tok(x) == [tok |-> x, node |-> None, obj |-> None]   \* obj: see MODULE Reparse
InMode(mode, nodes) == IF mode = "LyricMode" THEN Lyrics(nodes, None, <<>>) ELSE nodes
\* the nodes of a block, mode is the input mode inside it
Block(open, mode, items) ==
    CASE open = "{" -> <<Nd("MusicList", "{", InMode(mode, ReadItems(items)))>>
      [] open = "<<" -> <<Nd("SimultaneousMusicList", "<<", InMode(mode, ReadItems(items)))>>
      [] open = "\\with {" -> <<Nd("With", "\\with {", Assign(ReadItems(items)))>>
      [] open = "\\score {" -> <<Nd("Score", "\\score {", ReadItems(items))>>
      [] OTHER -> <<Lf(ModeOf(open), ModeWord(open)), Nd("MusicList", "{", InMode(mode, ReadItems(items)))>>
\* the open blocks, innermost last
FeedItem(st, it) ==
    LET top == st[Len(st)]
        x == it.tok IN
    IF x \in Opens THEN Append(st, [open |-> x, mode |-> IF ModeOf(x) = "inherit" THEN top.mode ELSE ModeOf(x), items |-> <<>>,
                                    odd |-> x = "\\score {" /\ Len(st) > 1])
    ELSE IF x \in Closes
    THEN IF Len(st) > 1 /\ CloserOf(top.open) = x
         THEN LET up == st[Len(st) - 1] IN
              Append(SubSeq(st, 1, Len(st) - 2),
                     [up EXCEPT !.items = Append(@, [tok |-> "", node |-> Block(top.open, top.mode, top.items), obj |-> None]),
                                !.odd = @ \/ top.odd \/ Odd(top.items)])
         ELSE [st EXCEPT ![Len(st)].odd = TRUE]
    ELSE [st EXCEPT ![Len(st)].items = Append(@, IF x = "--" /\ top.mode = "LyricMode" THEN [it EXCEPT !.tok = "lyric --"] ELSE it),
                    ![Len(st)].odd = @ \/ (x \in AllMusic \cup Durs /\ top.open \in {"", "\\with {", "\\score {"}) \/ ~Allows(top.mode, x)]
Feed(st, x) == FeedItem(st, Tok(x))
RECURSIVE CloseAll(_)
CloseAll(st) == IF Len(st) = 1 THEN st[1] ELSE CloseAll(Feed(st, CloserOf(st[Len(st)].open)))
Bottom == <<[open |-> "", mode |-> "note", items |-> <<>>, odd |-> FALSE]>>
Whole(doc) == CloseAll(FoldLeft(Feed, Bottom, doc))
Read(doc) == Assign(ReadItems(Whole(doc).items))
\* documents that are no LilyPond; what they mean is left open
Undefined(doc) == LET w == Whole(doc) IN w.odd \/ Odd(w.items)

\* ---- the tree as a list
RECURSIVE Flat(_, _)
Flat(ns, d) == FoldLeft(LAMBDA acc, n : acc \o <<<<d, n.k, n.t>>>> \o Flat(n.c, d + 1), <<>>, ns)
=============================================================================
