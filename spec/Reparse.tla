------------------------------ MODULE Reparse ------------------------------
(* A document that is edited. The nodes that were made for the parts of the  *)
(* text an edit does not touch are used again for the new tree (cache).      *)
(* When a chord gets its duration and post events, that must be done to a    *)
(* copy: with Mutate = TRUE it is done to the node that is kept.             *)
EXTENDS Reader, TLC, Json, FiniteSets
CONSTANTS Which,        \* number of the set of tokens
          MaxLen, MaxEdits, MaxNew,
          Mutate,
          Walk          \* TRUE: random walks (simulation) with longer documents
Alphabets == <<
    {"{", "}", "<c e>", "4", "-.", "%{x%}", "\\grace"},
    {"{", "}", "<c e>", "c", "8.", "\\p", "<<", ">>"},
    {"{", "}", "<c e>", "%{x%}", "\\foo", "4", "\\relative"},
    {"{", "<c e>", "\\rest", "c", "%{x%}", "4", "("},
    {"{", "}", "\\repeat volta 2", "\\alternative", "c", "%{x%}", "<c e>"},
    {"\\score {", "}", "{", "foo =", "%{x%}", "\\foo", "c"},
    {"{", "}", "\\new Staff", "\\with {", "<c e>", "4", "%{x%}"},
    {"{", "}", "\\tag #'x", "<c e>", "-1", "4", "%{x%}"} >>
Alphabet == IF Which = 0 THEN UNION {Alphabets[i] : i \in DOMAIN Alphabets} ELSE Alphabets[Which]
VARIABLES doc,      \* seq of tokens
          kept,     \* kept[i]: <<node>> made for the i-th token before, or <<>>
          tree,     \* what the transformation has made of it
          hist      \* the first text and the edits
vars == <<doc, kept, tree, hist>>
AsItem(d, k, i) == [tok |-> d[i], node |-> None, obj |-> k[i]]
Transform(d, k) ==
    LET st == CloseAll(FoldLeft(FeedItem, Bottom, [i \in DOMAIN d |-> AsItem(d, k, i)]))
    IN Assign(ReadItems(st.items))
RECURSIVE ChordsIn(_)
ChordsIn(ns) == FoldLeft(LAMBDA acc, n : acc \o (IF n.k = "Chord" THEN <<n>> ELSE ChordsIn(n.c)), <<>>, ns)
\* the nodes that are kept after a transformation
Keep(d, t) ==
    LET cs == ChordsIn(t)
        nth(i) == Cardinality({j \in 1..i : d[j] = "<c e>"})
    IN [i \in DOMAIN d |-> IF d[i] # "<c e>" THEN <<>>
                           ELSE IF Mutate THEN <<cs[nth(i)]>> ELSE <<MusicNode("<c e>")>>]
Some(S) == IF Walk THEN {RandomElement(S)} ELSE S
Text(n) == IF Walk THEN {[i \in 1..n |-> RandomElement(Alphabet)]} ELSE [1..n -> Alphabet]
Docs == UNION {Text(n) : n \in Some(0..MaxLen)}
Init == /\ doc \in Docs /\ TRUE
        /\ tree = Read(doc) /\ kept = Keep(doc, tree)
        /\ hist = <<[i |-> 0, j |-> 0, new |-> doc]>>
Splice(s, i, j, new) == SubSeq(s, 1, i) \o new \o SubSeq(s, j + 1, Len(s))
\* the tokens i+1..j are replaced by new; around it some more may be read again
Edit == \E i \in Some(0..Len(doc)) : \E j \in Some(i..(IF Walk /\ i + 2 < Len(doc) THEN i + 2 ELSE Len(doc))) :
        \E n \in Some(0..MaxNew) : \E new \in Text(n) :
          LET d == Splice(doc, i, j, new)
              k0 == Splice(kept, i, j, [x \in 1..n |-> <<>>])
              t == Transform(d, k0)
          IN /\ (Walk \/ n + j - i > 0)
             /\ doc' = d /\ tree' = t /\ kept' = Keep(d, t)
             /\ hist' = Append(hist, [i |-> i, j |-> j, new |-> new])
Next == Len(hist) <= MaxEdits /\ Edit
Spec == Init /\ [][Next]_vars
\* the tree depends on the text only
Fresh == tree = Read(doc)
Emit == Len(hist) > MaxEdits => PrintT(ToJson([hist |-> hist]))
=============================================================================
