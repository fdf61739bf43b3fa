------------------------------ MODULE Collect ------------------------------
(* Combining a flat sequence of items into a forest: an item collects the    *)
(* items that follow it as arguments as long as they match one of its        *)
(* declared argument patterns; nested items collect their own first.         *)
(* An item: [types |-> its type names, sigs |-> its patterns (sequences of   *)
(* alternatives), ign |-> it is of an ignored type (a comment), kids |-> the *)
(* type names (and ign) of the children it has already].                     *)
EXTENDS Integers, Sequences, FiniteSets

RangeC(s) == {s[i] : i \in DOMAIN s}
Fits(pat, types) == RangeC(pat) \cap RangeC(types) # {}
\* what remains of the patterns after an argument of the given types
After(sigs, types) == {Tail(s) : s \in {x \in sigs : Fits(x[1], types)}}
RECURSIVE Remain(_, _)
Remain(sigs, kids) ==
    IF kids = <<>> \/ sigs = {} THEN sigs
    ELSE IF kids[1].ign THEN Remain(sigs, Tail(kids))
    ELSE Remain(After(sigs, kids[1].types) \ {<<>>}, Tail(kids))
Waits(it) == Remain(RangeC(it.sigs), it.kids)

RECURSIVE Parse(_, _), Args(_, _, _, _)
\* the tree of item k and the next item
Parse(IT, k) == LET r == Args(IT, Waits(IT[k]), k + 1, <<>>) IN [tree |-> [i |-> k, args |-> r.args], next |-> r.next]
Args(IT, sigs, k, acc) ==
    IF k > Len(IT) \/ sigs = {} THEN [args |-> acc, next |-> k]
    ELSE IF IT[k].ign THEN Args(IT, sigs, k + 1, Append(acc, [i |-> k, args |-> <<>>]))
    ELSE LET left == After(sigs, IT[k].types) IN
         IF left = {} THEN [args |-> acc, next |-> k]
         ELSE LET r == Parse(IT, k) IN Args(IT, left \ {<<>>}, r.next, Append(acc, r.tree))
RECURSIVE Forest(_, _)
Forest(IT, k) == IF k > Len(IT) THEN <<>> ELSE LET r == Parse(IT, k) IN <<r.tree>> \o Forest(IT, r.next)

RECURSIVE Order(_)
Order(ts) == IF ts = <<>> THEN <<>> ELSE <<ts[1].i>> \o Order(ts[1].args) \o Order(Tail(ts))
\* nothing is lost, duplicated or reordered
Keeps(IT) == Order(Forest(IT, 1)) = [k \in DOMAIN IT |-> k]
\* the arguments of every tree follow one of the patterns, as far as they go
RECURSIVE WellFormed(_, _)
WellFormed(IT, t) ==
    LET real == SelectSeq(t.args, LAMBDA x : ~IT[x.i].ign)
        kids == SelectSeq(IT[t.i].kids, LAMBDA x : ~x.ign)
        ty == [j \in 1..(Len(kids) + Len(real)) |-> IF j <= Len(kids) THEN kids[j].types ELSE IT[real[j - Len(kids)].i].types]
    IN /\ real # <<>> => \E s \in RangeC(IT[t.i].sigs) : Len(s) >= Len(ty) /\ \A j \in DOMAIN ty : Fits(s[j], ty[j])
       /\ \A x \in RangeC(t.args) : WellFormed(IT, x)

(* The argument patterns of LilyPond's commands, in terms of kinds of items. *)
Atoms == {"note", "chord", "rest", "skip", "list", "sim", "unp", "ref", "sym", "nlist", "str", "int", "float",
          "frac", "scheme", "eq", "with", "mode", "default", "markup", "comment", "rtype", "rint"}
MusicCommands == {"relative", "absolute", "fixed", "transpose", "repeat", "alternative", "unfoldRepeats", "unfolded",
          "volta", "transposition", "ottava", "sequential", "simultaneous", "new", "context", "change", "key", "clef", "time",
          "partial", "times", "tuplet", "scaleDurations", "shiftDurations", "grace", "acciaccatura", "appoggiatura",
          "afterGrace", "partcombine", "bar", "mark", "tempo", "omit", "hide", "undo", "once",
          "temporary", "override", "revert", "set", "unset", "quoteDuring", "label", "notemode", "keepWithTag", "removeWithTag"}
OtherCommands == {"octaveCheck", "pushToTag", "appendToTag", "tagGroup", "accepts", "denies",
          "name", "alias", "consists", "remove", "defaultchild", "language", "include", "addQuote"}
Kinds == Atoms \cup MusicCommands \cup OtherCommands
Mus == {"note", "chord", "rest", "skip", "list", "sim", "unp", "ref"} \cup MusicCommands
Num == {"scheme", "int", "rint", "float", "frac", "unp"}
Val == {"nlist", "str", "scheme", "markup", "ref", "unp"} \cup Num
Sy == {"nlist", "sym", "rtype", "str"}
S1 == {"sym", "rtype"}
Text == {"nlist", "sym", "rtype", "str", "markup", "ref"}
Tg == {"sym", "rtype", "str", "scheme"}
Sigs(k) ==
    CASE k = "relative" -> {<<{"note"}, Mus>>, <<Mus>>}
      [] k = "fixed" -> {<<{"note"}, Mus>>}
      [] k = "transpose" -> {<<{"note"}, {"note"}, Mus>>}
      [] k = "repeat" -> {<<S1, {"int", "rint", "ref", "scheme"}, Mus>>, <<S1, {"int", "rint", "ref", "scheme"}, Mus, {"alternative"}>>}
      [] k \in {"alternative", "sequential", "simultaneous"} -> {<<{"list", "sim"}>>}
      [] k \in {"absolute", "unfoldRepeats", "unfolded", "grace", "acciaccatura", "appoggiatura", "undo", "once",
                "temporary", "notemode"} -> {<<Mus>>}
      [] k = "volta" -> {<<{"nlist", "scheme"}, Mus>>}
      [] k \in {"transposition", "octaveCheck"} -> {<<{"note"}>>}
      [] k = "ottava" -> {<<Num>>}
      [] k \in {"new", "context"} -> {<<S1, Mus>>, <<S1, {"with"}, Mus>>, <<S1, {"eq"}, S1 \cup {"str"}, Mus>>, <<S1, {"eq"}, S1 \cup {"str"}, {"with"}, Mus>>}
      [] k = "change" -> {<<S1, {"eq"}, S1 \cup {"str"}>>}
      [] k = "key" -> {<<{"note"}, {"mode", "ref", "scheme"}>>}
      [] k = "clef" -> {<<S1 \cup {"str"}>>}
      [] k = "time" -> {<<{"nlist"}, {"frac"}>>, <<{"frac"}>>}
      [] k = "partial" -> {<<{"unp"}>>}
      [] k = "times" -> {<<{"frac"}, Mus>>}
      [] k = "tuplet" -> {<<{"frac"}, {"unp"}, Mus>>, <<{"frac"}, Mus>>}
      [] k = "scaleDurations" -> {<<{"frac", "int", "rint", "unp", "scheme"}, Mus>>}
      [] k = "shiftDurations" -> {<<Num, Num, Mus>>}
      [] k = "afterGrace" -> {<<{"frac"}, Mus, Mus>>, <<Mus, Mus>>}
      [] k = "partcombine" -> {<<Mus, Mus>>}
      [] k \in {"bar", "language", "include"} -> {<<{"str"}>>}
      [] k = "mark" -> {<<{"default"}>>, <<Val>>}
      [] k = "tempo" -> {<<Text>>, <<Text, {"unp"}, {"eq"}, {"int", "rint"}>>, <<{"unp"}, {"eq"}, {"int", "rint"}>>}
      [] k \in {"omit", "hide", "unset"} -> {<<Sy>>}
      [] k = "override" -> {<<Sy>> \o [j \in 1..n |-> {"scheme"}] \o <<{"eq"}, Val>> : n \in 0..4}
      [] k = "revert" -> {<<Sy>> \o [j \in 1..n |-> {"scheme"}] : n \in 0..4}
      [] k = "set" -> {<<Sy, {"eq"}, Val>>}
      [] k = "quoteDuring" -> {<<{"nlist", "str"} \cup S1, Mus>>}
      [] k = "addQuote" -> {<<{"str"} \cup S1, Mus>>}
      [] k = "label" -> {<<{"scheme"}>>}
      [] k \in {"keepWithTag", "removeWithTag", "pushToTag", "appendToTag"} -> {<<Tg, Mus>>}
      [] k = "tagGroup" -> {<<Tg>>}
      [] k \in {"accepts", "denies", "name", "alias", "defaultchild"} -> {<<S1 \cup {"str"}>>}
      [] k \in {"consists", "remove"} -> {<<S1 \cup {"str", "scheme"}>>}
      [] k \in {"int", "rint", "float", "ref"} -> {<<{"unit"}>>}   \* keep a comment that follows
      [] OTHER -> {}
\* the order patterns are written in does not matter
RECURSIVE SetToSq(_)
SetToSq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSq(S \ {x})
Item(k) == [types |-> <<k>>, sigs |-> SetToSq({[j \in DOMAIN s |-> SetToSq(s[j])] : s \in Sigs(k)}), ign |-> k = "comment", kids |-> <<>>]
=============================================================================
