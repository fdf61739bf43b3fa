------------------------------- MODULE Edits --------------------------------
(* Writing a modified tree back to the text it was read from.                *)
(* The tree is its sequence of points (pieces of text in document order):    *)
(*   pos, end   place in the text (0-based, end exclusive); -1: a new piece  *)
(*   text       what it should read                                          *)
(*   mod        "y" if the text was changed                                  *)
(*   bare       that without whitespace                                      *)
(* An edit is [pos, end, text], all positions in the original text.          *)
EXTENDS Integers, Sequences, SequencesExt
Cut(s, p, e) == IF e <= p THEN "" ELSE SubSeq(s, p + 1, e)
\* the text after the edits (in order, not overlapping)
Apply(doc, edits) ==
    LET r == FoldLeft(LAMBDA s, e : [o |-> s.o \o Cut(doc, s.p, e.pos) \o e.text, p |-> e.end], [o |-> "", p |-> 0], edits)
    IN r.o \o Cut(doc, r.p, Len(doc))
Ordered(edits, len) ==
    /\ \A i \in DOMAIN edits : 0 <= edits[i].pos /\ edits[i].pos <= edits[i].end /\ edits[i].end <= len
    /\ \A i \in 1..(Len(edits) - 1) : edits[i].end <= edits[i + 1].pos
White == {" ", "\n", "\t", "\r", "\f"}
Bare(s) == FoldLeft(LAMBDA o, i : LET c == SubSeq(s, i, i) IN IF c \in White THEN o ELSE o \o c, "", [i \in 1..Len(s) |-> i])
\* the points that are at their place: existing, and right of all before
InPlace(pts) ==
    FoldLeft(LAMBDA s, i : IF pts[i].pos >= s.p THEN [s EXCEPT !.p = pts[i].end, !.k = @ \cup {i}] ELSE s,
             [p |-> 0, k |-> {}], [i \in 1..Len(pts) |-> i]).k
Moved(pts) == \E i \in DOMAIN pts : pts[i].pos >= 0 /\ i \notin InPlace(pts)
\* the text that the points should read after the edits, without whitespace
Content(pts) == FoldLeft(LAMBDA o, x : o \o x.bare, "", pts)
\* an edit touches the text p..e (not only its edges)
Touches(x, p, e) == (x.pos < e /\ x.end > p) /\ ~(x.pos = x.end /\ (x.pos = p \/ x.pos = e))
Blank(s) == Bare(s) = ""
\* the verdict on edits of the whole document; "unchanged" says that nothing was modified, removed or added
\* (result: the text after the edits, bare: that without whitespace)
JudgeWith(doc, pts, edits, result, bare, count, unchanged, kept, ordered) ==
 LET moved == \E i \in DOMAIN pts : pts[i].pos >= 0 /\ i \notin kept
     quiet == {i \in kept : pts[i].mod = "n"} IN
      (IF ordered THEN {} ELSE {"order"})
 \cup (IF ordered /\ result # Apply(doc, edits) THEN {"applied"} ELSE {})
 \cup (IF count = Len(edits) THEN {} ELSE {"count"})
 \cup (IF unchanged = "y" /\ edits # <<>> THEN {"no-edits"} ELSE {})
 \cup (IF bare = Content(pts) THEN {} ELSE {"content"})
 \cup (IF ~moved /\ \E k \in DOMAIN edits, i \in quiet : Touches(edits[k], pts[i].pos, pts[i].end) THEN {"touched"} ELSE {})
 \* whitespace between two unmodified neighbours with only that between them stays
 \cup (IF ~moved /\ \E k \in DOMAIN edits, i \in quiet :
            /\ i + 1 \in quiet
            /\ edits[k].pos >= pts[i].end /\ edits[k].end <= pts[i + 1].pos
            /\ ~(edits[k].pos = edits[k].end /\ edits[k].text = "")
            /\ Blank(Cut(doc, pts[i].end, pts[i + 1].pos))
       THEN {"gap"} ELSE {})
Judge(doc, pts, edits, result, bare, count, unchanged) ==
    CHOOSE v \in {JudgeWith(doc, pts, edits, result, bare, count, unchanged, k, o) :
                   k \in {InPlace(pts)}, o \in {Ordered(edits, Len(doc))}} : TRUE
\* with a range: nothing outside it is deleted, except replaced texts
RangeWith(doc, pts, edits, from, to, kept) ==
 LET moved == \E i \in DOMAIN pts : pts[i].pos >= 0 /\ i \notin kept IN
      (IF \A k \in DOMAIN edits : edits[k].pos = edits[k].end \/ (edits[k].pos >= from /\ edits[k].end <= to)
            \/ \E i \in DOMAIN pts : pts[i].mod = "y" /\ pts[i].pos = edits[k].pos /\ pts[i].end = edits[k].end THEN {} ELSE {"range"})
 \cup (IF Ordered(edits, Len(doc)) THEN {} ELSE {"order"})
 \cup (IF ~moved /\ \E k \in DOMAIN edits, i \in kept :
            pts[i].mod = "n" /\ Touches(edits[k], pts[i].pos, pts[i].end) THEN {"touched"} ELSE {})
 \* everything added or modified is written
 \cup (IF \A i \in DOMAIN pts : (pts[i].pos = -1 /\ pts[i].bare # "") \/ (pts[i].mod = "y" /\ i \in kept) =>
            \E k \in DOMAIN edits : pts[i].bare = "" \/ Bare(edits[k].text) = pts[i].bare THEN {} ELSE {"written"})
JudgeRange(doc, pts, edits, from, to) ==
    CHOOSE v \in {RangeWith(doc, pts, edits, from, to, k) : k \in {InPlace(pts)}} : TRUE
=============================================================================
