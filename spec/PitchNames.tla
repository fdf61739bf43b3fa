---------------------------- MODULE PitchNames ----------------------------
(* Pitch names in the languages.  A table is a sequence of names             *)
(* [c |-> characters, o |-> octave of the plain name, s |-> step, a |->      *)
(* alteration in 1/20 whole tones].  Writing preferences pick among the      *)
(* names of one pitch; a document is a sequence of notes and language        *)
(* commands, each note is read in the language in force.                     *)
EXTENDS Integers, Sequences, FiniteSets

RangeN(s) == {s[i] : i \in DOMAIN s}
HasPair(c, x, y) == \E i \in 1..(Len(c) - 1) : c[i] = x /\ c[i + 1] = y
HasChar(c, x) == \E i \in DOMAIN c : c[i] = x
EndsIn(c, x) == c # <<>> /\ c[Len(c)] = x

Long(c) == HasChar(c, "-")
X(c) == EndsIn(c, "x")
Accented(c) == HasChar(c, "eacute")
Classic(c) == ~HasPair(c, "e", "e") /\ ~HasPair(c, "a", "e")
DoubleS(c) == HasPair(c, "s", "s")
DeprDe(c) == c \in {<<"e", "e", "h">>, <<"a", "s", "e", "s">>, <<"a", "s", "e", "h">>, <<"a", "e", "h">>}
DeprSuomi(c) == c \in {<<"a", "s", "e", "s">>, <<"b", "b">>, <<"h", "e", "s", "e", "s">>}
DeprCat(c) == EndsIn(c, "s")

\* the names among N that a preference asks for, all of N if there are none
Pref(N, P(_), want) == LET Q == {n \in N : P(n.c) = want} IN IF Q = {} THEN N ELSE Q
\* p: the record of preferences
Allowed(lang, N, p) ==
    CASE lang = "nederlands" -> Pref(N, Classic, p.classic)
      [] lang = "english" -> Pref(Pref(N, Long, p.long), X, p.x)
      [] lang \in {"espanol"} -> Pref(N, X, p.x)
      [] lang = "francais" -> Pref(Pref(N, Accented, p.accented), X, p.x)
      [] lang = "norsk" -> Pref(Pref(N, DoubleS, p.doubles), Classic, p.classic)
      [] lang = "deutsch" -> Pref(N, DeprDe, p.deprecated)
      [] lang = "suomi" -> Pref(N, DeprSuomi, p.deprecated)
      [] lang \in {"catalan"} -> Pref(N, DeprCat, p.deprecated)
      [] OTHER -> N
NamesOf(T, s, a) == {n \in RangeN(T) : n.s = s /\ n.a = a}
\* a written name and octave marks is right if it denotes the pitch
Denotes(T, c, marks, pit) == \E n \in RangeN(T) : n.c = c /\ n.s = pit[2] /\ n.a = pit[3] /\ n.o + marks = pit[1]
PitchOf(T, c, marks) == LET n == CHOOSE n \in RangeN(T) : n.c = c IN <<n.o + marks, n.s, n.a>>
Knows(T, c) == \E n \in RangeN(T) : n.c = c

\* languages whose preferred style can be read off the names used
Distils == {"nederlands", "english", "espanol", "francais", "norsk", "deutsch", "suomi"}
\* the languages a document position is in: the last valid language command before it
RECURSIVE LangAt(_, _)
LangAt(cmds, start) == IF cmds = <<>> THEN start ELSE LangAt(Tail(cmds), IF cmds[1] = "" THEN start ELSE cmds[1])
=============================================================================
