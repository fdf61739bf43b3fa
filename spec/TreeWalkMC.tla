----------------------------- MODULE TreeWalkMC -----------------------------
(* Grows every ordered tree with up to N nodes (in document order), checks   *)
(* that the walks of the specification are coherent, and prints, per tree,   *)
(* every query with its answer.                                              *)
EXTENDS TreeWalk, TLC, Json
CONSTANTS N, NP         \* max nodes; max nodes for which all skip sets are used
VARIABLES kids
Init == kids = <<<<>>>>
Rightmost == LET RECURSIVE f(_)
                 f(n) == {n} \cup (IF kids[n] = <<>> THEN {} ELSE f(kids[n][Len(kids[n])]))
             IN f(1)
Next == /\ Len(kids) < N
        /\ \E p \in Rightmost : kids' = Append([kids EXCEPT ![p] = Append(@, Len(kids) + 1)], <<>>)
Spec == Init /\ [][Next]_kids

\* ---- coherence of the specification itself
ParM == ParentMap(kids)
Whole == <<1>> \o Pre(kids, 1)
Partition == \A n \in DOMAIN kids :
    LET f == SeqRange(Walk(kids, ParM, "fwd", n, 0, {}))
        b == SeqRange(Walk(kids, ParM, "bwd", n, 0, {}))
        d == SeqRange(Pre(kids, n))
        a == AncSet(ParM, n)
    IN /\ f \cup b \cup d \cup a \cup {n} = DOMAIN kids
       /\ Cardinality(f) + Cardinality(b) + Cardinality(d) + Cardinality(a) + 1 = Len(kids)
DocOrder == \A n, m \in DOMAIN kids :       \* ids are given in document order
    (n < m) <=> PathLess(Trail(kids, ParM, n), Trail(kids, ParM, m))
PreIsOrder == Whole = [i \in DOMAIN kids |-> i]
CommonYoungest == \A n, m \in DOMAIN kids :
    LET c == Common(ParM, n, m) IN
    /\ n \in {c} \cup SeqRange(Pre(kids, c)) /\ m \in {c} \cup SeqRange(Pre(kids, c))
    /\ \A d \in SeqRange(Pre(kids, c)) :
          ~(n \in {d} \cup SeqRange(Pre(kids, d)) /\ m \in {d} \cup SeqRange(Pre(kids, d)))

typ0 == [n \in DOMAIN kids |-> n % 3]
val0 == [n \in DOMAIN kids |-> n % 2]
Q(o, a, b, p, t, inst) == [o |-> o, a |-> a, b |-> b, p |-> p, t |-> t, inst |-> inst]
SetSeq(S) == LET RECURSIVE f(_)
                 f(X) == IF X = {} THEN <<>> ELSE LET m == CHOOSE m \in X : \A k \in X : m <= k IN <<m>> \o f(X \ {m})
             IN f(S)
Skips == IF Len(kids) <= NP THEN {SetSeq(S) : S \in SUBSET DOMAIN kids} ELSE {<<>>} \cup {<<n>> : n \in DOMAIN kids}
Queries ==
    UNION {
      {Q(o, a, b, p, <<>>, 0) : o \in {"fwd", "bwd"}, b \in {0} \cup AncSet(ParM, a), p \in Skips}
      \cup {Q(o, a, 0, p, <<>>, 0) : o \in {"desc", "rdesc", "filter", "filterfwd", "filterbwd"}, p \in Skips}
      \cup {Q(o, a, 0, <<>>, <<>>, 0) : o \in {"anc", "root", "trail", "depth", "height", "isroot", "rsibs", "lsibs", "rsib", "lsib", "ancix"}}
      \cup {Q(o, a, 0, <<>>, <<>>, 0) : o \in IF a = 1 THEN {} ELSE {"islast", "isfirst"}}
      \cup {Q(o, a, b, <<>>, <<>>, 0) : o \in {"common", "commontrail"}, b \in DOMAIN kids}
      \cup {q \in {Q(o, a, 0, <<>>, t, i) : o \in {"/", "^", "//", "<<", ">", "<"}, t \in {<<0>>}, i \in {1, 2} \cap DOMAIN kids} : ~Reflected(typ0, q)}
      \cup {Q(o, a, 0, <<>>, t, 0) : o \in {"/", "^", "//", "<<", ">", "<", "instances"}, t \in {<<0>>, <<1>>, <<2, 1>>, <<9>>}}
      : a \in DOMAIN kids }
Emit == PrintT(ToJson([kids |-> kids, typ |-> typ0, val |-> val0,
          qs |-> {<<q, Answer(kids, typ0, val0, q)>> : q \in Queries}]))
=============================================================================
