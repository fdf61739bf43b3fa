------------------------------ MODULE RhythmMC ------------------------------
(* Small documents, and a way to perform the operations on them: the rules   *)
(* of Rhythm can be met, and laws follow from them. Emits the documents.     *)
EXTENDS Rhythm, TLC, Json
CONSTANTS MaxLen, Which
Tk(k, t) == [k |-> k, t |-> t, d |-> <<>>, l |-> 0]
Du(t, d) == [k |-> "dur", t |-> t, d |-> d, l |-> 0]
T(x) ==
    CASE x = "c" -> <<Tk("note", "c")>>
      [] x = "r" -> <<Tk("rest", "r")>>
      [] x = "q" -> <<Tk("rest", "q")>>
      [] x = "<c e>" -> <<Tk("chord", "<"), Tk("note", "c"), Tk("note", "e"), Tk("endchord", ">")>>
      [] x = "4" -> <<Du("4", <<2, 0, 1, 1>>)>>
      [] x = "8." -> <<Du("8.", <<3, 1, 1, 1>>)>>
      [] x = "2*2/3" -> <<Du("2*2/3", <<1, 0, 2, 3>>)>>
      [] x = "4*2" -> <<Du("4*2", <<2, 0, 2, 1>>)>>
      [] x = "\\skip 8" -> <<[Tk("skip", "\\skip") EXCEPT !.d = <<3, 0, 1, 1>>]>>
      [] x = "\\skip 4" -> <<[Tk("skip", "\\skip") EXCEPT !.d = <<2, 0, 1, 1>>]>>
      [] x = "\\skip { c 8. }" -> <<Tk("cmd", "\\skip"), Tk("open", "{"), Tk("note", "c"), Du("8.", <<3, 1, 1, 1>>), Tk("close", "}")>>
      [] x = "\\skip { c }" -> <<Tk("cmd", "\\skip"), Tk("open", "{"), Tk("note", "c"), Tk("close", "}")>>
      [] x = "\\tempo 4 = 60" -> <<[Tk("argd", "\\tempo@=60") EXCEPT !.d = <<2, 0, 1, 1>>]>>
      [] x = "\\partial 8." -> <<[Tk("argd", "\\partial@") EXCEPT !.d = <<3, 1, 1, 1>>]>>
      [] x = "\\tuplet 3/2 4 { c }" -> <<[Tk("argd", "\\tuplet3/2@") EXCEPT !.d = <<2, 0, 1, 1>>], Tk("open", "{"), Tk("note", "c"), Tk("close", "}")>>
      [] x = "-." -> <<Tk("dir", "-.")>>
      [] x = "%{x%}" -> <<Tk("com", "%{x%}")>>
      [] x = "{" -> <<Tk("open", "{")>>
      [] x = "}" -> <<Tk("close", "}")>>
      [] x = "\\grace" -> <<Tk("cmd", "\\grace")>>
      [] x = "\\relative c'" -> <<Tk("cmd", "\\relative"), Tk("note", "c'")>>
      [] x = "\\key d \\major" -> <<Tk("cmd", "\\key"), Tk("note", "d"), Tk("cmd", "\\major")>>
      [] x = "\\rest" -> <<Tk("cmd", "\\rest")>>
      [] x = "\\foo" -> <<Tk("cmd", "\\foo")>>
      [] x = "|" -> <<Tk("sym", "|")>>
      [] x = "la" -> <<Tk("word", "la")>>
      [] x = "\"x\"" -> <<Tk("str", "\"x\"")>>
      [] x = "<6>" -> <<Tk("chord", "<"), Tk("int", "6"), Tk("endchord", ">")>>
      [] x = "<5 3+>" -> <<Tk("chord", "<"), Tk("int", "5"), Tk("int", "3"), Tk("sym", "+"), Tk("endchord", ">")>>
      [] x = "bd" -> <<Tk("word", "bd")>>
      [] x = "<sn hh>" -> <<Tk("chord", "<"), Tk("word", "sn"), Tk("word", "hh"), Tk("endchord", ">")>>
      [] x = ":m7" -> <<Tk("mod", ":m7")>>
Alphabets == <<
    {"c", "4", "8.", "%{x%}", "-."},
    {"c", "4", "\\skip 8", "\\skip 4", "2*2/3", "4*2"},
    {"<c e>", "4", "q", "8.", "%{x%}"},
    {"c", "4", "{", "}", "\\grace", "%{x%}"},
    {"c", "4", "\\tempo 4 = 60", "\\partial 8.", "2*2/3"},
    {"\\relative c'", "{", "}", "c", "4", "r"},
    {"c", "\\rest", "4", "8.", "-."},
    {"c", "4", "8.", "\\skip { c 8. }", "\\skip { c }"},
    {"c", "\\key d \\major", "4", "|", "\\foo"},
    {"\\tuplet 3/2 4 { c }", "c", "4", "8.", "\\skip 4"},
    {"la", "\"x\"", "4", "8.", "%{x%}"},
    {"c", ":m7", "4", "8.", "r"},
    {"<6>", "<5 3+>", "4", "8.", "r", "%{x%}"},
    {"bd", "<sn hh>", "4", "8.", "r", "-."} >>
Mode == CASE Which = 11 -> "\\lyricmode" [] Which = 12 -> "\\chordmode" [] Which = 13 -> "\\figuremode" [] Which = 14 -> "\\drummode" [] OTHER -> ""
Around == <<IF Mode = "" THEN "{" ELSE Mode \o " {", "}">>
Before == (IF Mode = "" THEN <<>> ELSE <<Tk("cmd", Mode)>>) \o <<Tk("open", "{")>>
VARIABLES doc, done
Init == doc = <<>> /\ done = FALSE
Count(x) == Cardinality({i \in DOMAIN doc : doc[i] = x})
Fits(x) == LET last == IF doc = <<>> THEN "" ELSE doc[Len(doc)] IN
           /\ (x = "}" => Count("{") > Count("}"))
           /\ (x \in {"\\rest"} => last \in {"c", "4", "8."} /\ \E i \in {Len(doc) - 1, Len(doc)} : i > 0 /\ doc[i] = "c" /\ (i = Len(doc) \/ last \in {"4", "8."}))
           /\ (x = ":m7" => last \in {"c", "4", "8."} /\ \E i \in {Len(doc) - 1, Len(doc)} : i > 0 /\ doc[i] = "c" /\ (i = Len(doc) \/ last \in {"4", "8."}))
           \* (a number would be taken for a step)
           /\ (last = ":m7" => x \in {"c", "r"})
           \* some commands need music
           /\ (last = "\\relative c'" => x = "{")
           /\ (last = "\\grace" => x \in {"c", "{"})
Next == \/ ~done /\ Len(doc) < MaxLen /\ (\E x \in Alphabets[Which] : Fits(x) /\ doc' = Append(doc, x)) /\ UNCHANGED done
        \/ ~done /\ done' = TRUE /\ UNCHANGED doc
Spec == Init /\ [][Next]_<<doc, done>>
Complete == doc # <<>> /\ Count("{") = Count("}") /\ doc[Len(doc)] \notin {"\\relative c'", "\\grace"}
Toks == Before \o FlattenSeq([i \in DOMAIN doc |-> T(doc[i])]) \o <<Tk("close", "}")>>
\* ---- performing operations: the tokens with other durations for the units
Put(toks, us, new) ==
    LET at(i) == {n \in DOMAIN us : us[n].at # us[n].dat /\ LastPart(toks, [us[n] EXCEPT !.dat = 0]) = i}
        own(i) == {n \in DOMAIN us : us[n].dat = i}
    IN FlattenSeq([i \in DOMAIN toks |->
          LET o == own(i) IN
          (IF o = {} THEN <<toks[i]>>
           ELSE LET n == CHOOSE n \in o : TRUE IN
                IF us[n].at = us[n].dat THEN <<[toks[i] EXCEPT !.d = new[n]]>> ELSE <<>>)
          \o (LET a == at(i) IN IF a = {} THEN <<>>
              ELSE LET n == CHOOSE n \in a : TRUE IN IF new[n] = <<>> THEN <<>> ELSE <<Du("", new[n])>>)])
All(toks) == [i \in DOMAIN toks |-> TRUE]
Q(op, old, new) == [op |-> op, old |-> old, new |-> new, sel |-> All(old), list |-> <<>>, t |-> [log |-> 1, dots |-> 1, num |-> 2, den |-> 3]]
Explicit(toks) == LET us == Units(toks) IN Put(toks, us, Effective(us))
Implicit(toks) ==
    LET us == Units(toks)
        e == Effective(us)
        before(i) == {j \in 1..(i - 1) : us[j].sets}
        first(i) == ~\E j \in 1..(i - 1) : us[j].d # <<>> /\ us[j].sets
        prev(i) == IF before(i) = {} THEN Quarter ELSE e[CHOOSE j \in before(i) : \A m \in before(i) : m <= j]
    IN Put(toks, us, [i \in DOMAIN us |-> IF ~first(i) /\ us[i].d = prev(i) /\ MayRemove(toks, us[i]) THEN <<>> ELSE us[i].d])
Strip(toks) == LET us == Units(toks) IN Put(toks, us, [i \in DOMAIN us |-> IF MayRemove(toks, us[i]) THEN <<>> ELSE us[i].d])
Possible == Complete => (/\ Judge(Q("explicit", Toks, Explicit(Toks))) = {}
                         /\ Judge(Q("implicit", Toks, Implicit(Toks))) = {}
                         /\ Judge(Q("implicit", Explicit(Toks), Implicit(Explicit(Toks)))) = {}
                         /\ Judge(Q("remove", Toks, Strip(Toks))) = {}
                         /\ Explicit(Implicit(Toks)) = Explicit(Toks)
                         /\ Implicit(Implicit(Toks)) = Implicit(Toks))
Show(toks) == [i \in DOMAIN toks |-> <<toks[i].k, toks[i].t, toks[i].d>>]
Emit == (done /\ Complete) => PrintT(ToJson([text |-> <<Around[1]>> \o doc \o <<Around[2]>>, toks |-> Show(Toks)]))
=============================================================================
