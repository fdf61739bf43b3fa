----------------------------- MODULE RoundTrip ------------------------------
(* A document as text, and as a tree; reading makes a tree of a text and     *)
(* writing a text of a tree.                                                 *)
(* A token is [w, s]: w the number of its word, or 0 for a string with the   *)
(* code points s between its quotes (the value of the string counts).        *)
EXTENDS Literals
TokenValue(x) == IF x.w # 0 THEN <<x.w>> ELSE <<0>> \o StringValue(x.kind, x.s)
Meaning(toks) == [i \in DOMAIN toks |-> TokenValue(toks[i])]
SameTokens(a, b) == Len(a) = Len(b) /\ Meaning(a) = Meaning(b)
\* the first token that differs
Differ(a, b) == LET D == {i \in 1 .. Len(a) + 1 : i > Len(a) \/ i > Len(b)} \cup {i \in DOMAIN a \cap DOMAIN b : TokenValue(a[i]) # TokenValue(b[i])}
                IN IF SameTokens(a, b) THEN 0 ELSE First(D)
\* t1 -read-> tree1 -write-> t2 -read-> tree2 -write-> t3
Lossless(h) == SameTokens(h.t1, h.t2)
SameTree(h) == h.tree1 = h.tree2
Stable(h) == h.t2 = h.t3 /\ h.same
=============================================================================
