------------------------------ MODULE MusicTime ------------------------------
(* The time music takes: lengths, positions and durations of expressions in  *)
(* a document with variables.                                                *)
(*                                                                           *)
(* A document is a sequence of symbols in prefix notation. A symbol has a    *)
(* kind k, a written duration d (<<log, dots, num, den>> or <<>>), arguments *)
(* a (of scale and shift) and a name n (of assign and ref):                  *)
(*   note    a note, chord, rest or space: takes time, the next ones without *)
(*           a duration follow it                                            *)
(*   skip    \skip with a duration: no example for the next ones             *)
(*   empty   an empty chord: no time, but its duration counts for the next   *)
(*   ref     a variable,  assign  the assignment of one (one argument)       *)
(*   zero    something that takes no time;  com  a comment                   *)
(*   open    { or <<, whose contents are up to the matching close            *)
(*   one     a command with one music argument;   both  with two, together   *)
(*   repeat  \repeat ... \alternative: two arguments, after each other       *)
(*   scale, shift, grace   with one argument, whose durations change         *)
(*   after   \afterGrace: two arguments, of which the second takes no time   *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
\* ------------------------------------------------------------------ rationals
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Abs(n) == IF n < 0 THEN -n ELSE n
Rat(n, d) == IF n = 0 THEN <<0, 1>> ELSE LET g == Gcd(Abs(n), d) IN <<n \div g, d \div g>>
Zero == <<0, 1>>
One == <<1, 1>>
Add(x, y) == LET g == Gcd(x[2], y[2]) IN Rat(x[1] * (y[2] \div g) + y[1] * (x[2] \div g), x[2] * (y[2] \div g))
Sub(x, y) == Add(x, <<-y[1], y[2]>>)
Mul(x, y) == LET a == Rat(x[1], y[2])
                 b == Rat(y[1], x[2])
             IN IF x[1] = 0 \/ y[1] = 0 THEN Zero ELSE <<a[1] * b[1], a[2] * b[2]>>
Less(x, y) == Sub(x, y)[1] < 0
Longer(x, y) == IF Less(x, y) THEN y ELSE x
\* ----------------------------------------------------------------- the tree
Arity(k) == CASE k \in {"one", "scale", "shift", "grace", "assign"} -> 1
              [] k \in {"both", "repeat", "after"} -> 2
              [] OTHER -> 0
\* stack: the expressions that are being read, with the number of arguments to
\* come (-1: up to the close)
RECURSIVE Finish(_)
Finish(stack) ==
    LET s == Last(stack) IN
    CASE s.left = -1 -> stack
      [] s.left = 1 -> Finish(Front(stack))
      [] OTHER -> Append(Front(stack), [s EXCEPT !.left = s.left - 1])
Step(st, x) ==
    LET parent == Last(st.stack).node
        nodes == Append(st.nodes, [k |-> x.k, t |-> x.t, d |-> x.d, a |-> x.a, n |-> x.n, p |-> parent, at |-> st.at + 1])
        s == [st EXCEPT !.at = st.at + 1]
    IN CASE x.k = "com" -> s
         [] x.k = "close" -> [s EXCEPT !.stack = Finish(Front(st.stack))]
         [] x.k = "open" -> [s EXCEPT !.nodes = nodes, !.stack = Append(st.stack, [node |-> Len(nodes), left |-> -1])]
         [] Arity(x.k) > 0 -> [s EXCEPT !.nodes = nodes, !.stack = Append(st.stack, [node |-> Len(nodes), left |-> Arity(x.k)])]
         [] OTHER -> [s EXCEPT !.nodes = nodes, !.stack = Finish(st.stack)]
Parsed(doc) == FoldLeft(Step, [nodes |-> <<>>, at |-> 0, stack |-> <<[node |-> 0, left |-> -1]>>], doc)
Nodes(doc) == Parsed(doc).nodes
WellFormed(doc) == Parsed(doc).stack = <<[node |-> 0, left |-> -1]>>
Below(D, i) == LET r == {j \in DOMAIN D : D[j].p = i} IN SetToSortSeq(r, LAMBDA x, y : x < y)
Sequential(n) == n.k = "repeat" \/ (n.k = "open" /\ n.t \notin {"<<", "\\simultaneous {"})
\* ------------------------------------------------------------------ durations
\* the duration that counts: its own, or else that of the last one before it
Counts(n) == n.k \in {"note", "empty"} /\ n.d # <<>>
Written(D, i) ==
    IF D[i].d # <<>> THEN D[i].d
    ELSE LET r == {j \in 1..(i - 1) : Counts(D[j])} IN
         IF r = {} THEN <<2, 0, 1, 1>> ELSE D[CHOOSE j \in r : \A m \in r : m <= j].d
\* how everything inside is changed
Same == [log |-> 0, dots |-> 0, scale |-> One]
Enter(n, t) ==
    CASE n.k = "scale" -> [t EXCEPT !.scale = Mul(t.scale, Rat(n.a[1], n.a[2]))]
      [] n.k = "shift" -> [t EXCEPT !.log = t.log + n.a[1], !.dots = t.dots + n.a[2]]
      [] n.k = "grace" -> [t EXCEPT !.scale = Zero]
      [] OTHER -> t
Pos(n) == IF n < 0 THEN 0 ELSE n
Base(log, dots) == IF dots + log < 0 THEN <<(2 * 2^dots - 1) * 2^(-(dots + log)), 1>>
                   ELSE Rat(2 * 2^dots - 1, 2^(dots + log))
Sounding(w, t) == Mul(Mul(Base(w[1] + t.log, Pos(w[2] + t.dots)), Rat(w[3], w[4])), t.scale)
\* the value of a variable: that of the last assignment before it (0: none)
RECURSIVE Above(_, _)
Above(D, i) == IF i = 0 THEN {} ELSE {i} \union Above(D, D[i].p)
Value(D, i) ==
    LET r == {j \in 1..(i - 1) : D[j].k = "assign" /\ D[j].n = D[i].n /\ j \notin Above(D, i)} IN
    IF r = {} THEN 0 ELSE Below(D, CHOOSE j \in r : \A m \in r : m <= j)[1]
\* ---------------------------------------------------------------- lengths
Sum(s) == FoldLeft(Add, Zero, s)
Largest(s) == FoldLeft(Longer, Zero, s)
\* the length of node i, when t is how everything around it changes durations
RECURSIVE Length(_, _, _)
Length(D, i, t) ==
    LET n == D[i]
        inside == Enter(n, t)
        kids == Below(D, i)
        parts == [j \in DOMAIN kids |-> Length(D, kids[j], inside)]
    IN CASE n.k \in {"note", "skip"} -> Sounding(Written(D, i), t)
         [] n.k \in {"empty", "zero"} -> Zero
         [] n.k = "ref" -> IF Value(D, i) = 0 THEN Zero ELSE Length(D, Value(D, i), t)
         [] n.k = "after" -> parts[1]
         [] Sequential(n) -> Sum(parts)
         [] OTHER -> Largest(parts)
IsTop(D, i) == D[i].p = 0 \/ D[D[i].p].k = "assign"
RECURSIVE Top(_, _), Around(_, _), Position(_, _)
Top(D, i) == IF IsTop(D, i) THEN i ELSE Top(D, D[i].p)
Around(D, i) == IF IsTop(D, i) THEN Same ELSE Enter(D[D[i].p], Around(D, D[i].p))
LengthOf(D, i) == Length(D, i, Around(D, i))
Position(D, i) ==
    IF IsTop(D, i) THEN Zero
    ELSE LET p == D[i].p
             kids == Below(D, p)
         IN Add(Position(D, p),
                IF Sequential(D[p]) THEN Sum([j \in 1..Cardinality({m \in DOMAIN kids : kids[m] < i}) |-> LengthOf(D, kids[j])])
                ELSE Zero)
End(D, i) == Add(Position(D, i), LengthOf(D, i))
Between(D, i, j) == Sub(End(D, j), Position(D, i))
\* the main music of \afterGrace determines its length; what time there is
\* inside the second argument is not specified
RECURSIVE Specified(_, _)
Specified(D, i) ==
    IF IsTop(D, i) THEN TRUE
    ELSE /\ (D[D[i].p].k = "after" => Below(D, D[i].p)[1] = i)
         /\ Specified(D, D[i].p)
\* a selection that ends at the end of a last argument ends at that of the command
RECURSIVE LastWith(_, _)
LastWith(D, i) == IF IsTop(D, i) \/ D[D[i].p].k = "open" \/ (LET kids == Below(D, D[i].p) IN kids[Len(kids)] # i) THEN i
                  ELSE LastWith(D, D[i].p)
\* ---------------------------------------------------------------- the events
\* dpos, ddur, dend: of a child that is no music (a fraction, a duration), which
\* is where its parent starts
\* q: [q |-> what, i |-> node, j |-> node, top |-> node, v |-> <<n, d>> or <<>>]
Good(D, q) ==
    CASE q.q = "len" -> q.v = LengthOf(D, q.i)
      [] q.q = "pos" -> q.top = Top(D, q.i) /\ q.v = Position(D, q.i)
      [] q.q = "posend" -> q.top = Top(D, q.i) /\ q.v = End(D, q.i)
      [] q.q = "dur" -> IF Top(D, q.i) # Top(D, q.j) THEN q.v = <<>> ELSE q.top = Top(D, q.i) /\ q.v = Between(D, q.i, q.j)
      [] q.q = "dpos" -> q.top = Top(D, q.i) /\ q.v = Position(D, q.i)
      [] q.q = "ddur" -> IF Top(D, q.i) # Top(D, q.j) THEN q.v = <<>> ELSE q.top = Top(D, q.i) /\ q.v = Between(D, q.i, q.j)
      [] q.q = "dend" -> IF Top(D, q.i) # Top(D, q.j) THEN q.v = <<>>
                         ELSE q.top = Top(D, q.i) /\ q.v = Sub(Position(D, q.j), Position(D, q.i))
      [] q.q = "cpos" -> IF q.i = 0 THEN q.v = <<>> ELSE q.top = Top(D, q.i) /\ q.v = Position(D, q.i)
      [] q.q = "cdur" -> LET j == LastWith(D, q.j) IN
                         IF q.i = 0 THEN q.v = <<>>     \* not from music to music
                         ELSE IF Top(D, q.i) # Top(D, j) \/ Less(Between(D, q.i, j), Zero) THEN q.v = <<>>
                         ELSE q.top = Top(D, q.i) /\ q.v = Between(D, q.i, j)
AsExpected(D, q) == Specified(D, q.i) /\ (q.q \in {"dur", "cdur", "ddur", "dend"} => Specified(D, q.j)) => Good(D, q)
Judge(e) == LET D == Nodes(e.doc) IN {q.q : q \in {x \in Range(e.queries) : ~(IF x.i = 0 THEN Good(D, x) ELSE AsExpected(D, x))}}
=============================================================================
