------------------------------ MODULE Duration ------------------------------
(* Musical durations.  A positive dyadic value is the finite set of the      *)
(* positions of its binary digits: position i stands for 2^(-i) (a whole     *)
(* note is {0}, a half note {1}, a breve {-1}, a dotted half note {1, 2}).    *)
(* Nothing is rounded and no size is fixed.  Scalings are reduced fractions  *)
(* <<numerator, denominator>>.                                               *)
EXTENDS Integers, Sequences, FiniteSets

MaxD(a, b) == IF a > b THEN a ELSE b
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Dur(log, dots) == log..(log + dots)
Log(S) == MinOf(S)
RECURSIVE Run(_, _)
Run(S, i) == IF i \in S THEN 1 + Run(S, i + 1) ELSE 0
Dots(S) == Run(S, MinOf(S)) - 1
Expressible(S) == S = Dur(Log(S), Dots(S))
Truncated(S) == Dur(Log(S), Dots(S))
Shift(S, l, d) == Dur(Log(S) + l, MaxD(0, Dots(S) + d))
\* from 1/1024 (log 10) to \maxima (log -3)
Writable(S) == Expressible(S) /\ Log(S) \in (0 - 3)..10

RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(f) == LET g == Gcd(f[1], f[2]) IN <<f[1] \div g, f[2] \div g>>
Mul(f, g) == Reduce(<<f[1] * g[1], f[2] * g[2]>>)

\* a transform: [log, dots, scale]
NoT == [log |-> 0, dots |-> 0, scale |-> <<1, 1>>]
AddT(a, b) == [log |-> a.log + b.log, dots |-> a.dots + b.dots, scale |-> Mul(a.scale, b.scale)]
RECURSIVE SumT(_)
SumT(ts) == IF ts = <<>> THEN NoT ELSE AddT(ts[1], SumT(Tail(ts)))
\* applied to a value and a scaling
ApplyT(t, S, f) == <<IF t.log = 0 /\ t.dots = 0 THEN S ELSE Shift(S, t.log, t.dots), Mul(f, t.scale)>>
\* numerator and denominator of value times scaling (small values only)
Num(S) == LET m == CHOOSE x \in S : \A y \in S : y <= x
              RECURSIVE sum(_)
              sum(T) == IF T = {} THEN 0 ELSE LET x == MinOf(T) IN 2 ^ (m - x) + sum(T \ {x})
          IN IF m >= 0 THEN <<sum(S), 2 ^ m>> ELSE <<sum(S) * 2 ^ (0 - m), 1>>
Length(S, f) == Mul(Reduce(Num(S)), f)

Err == [err |-> "error"]
\* answer to a query q on the duration functions
AnswerD(q) ==
    LET S == {q.s[i] : i \in DOMAIN q.s} IN
    CASE q.o = "dur" -> [bits |-> Dur(q.l, q.d)]
      [] q.o = "log" -> [log |-> Log(S), dots |-> Dots(S)]
      [] q.o = "shift" -> [bits |-> Shift(S, q.l, q.d)]
      [] q.o = "str" -> IF Log(S) < 0 - 3 THEN Err ELSE [log |-> Log(S), dots |-> Dots(S)]
      [] q.o = "from" -> IF q.l \in (0 - 3)..20 THEN [bits |-> Dur(q.l, q.d)] ELSE Err
      [] q.o = "writable" -> [yes |-> Writable(S)]
      [] q.o = "add" -> LET t == SumT(q.t) IN [log |-> t.log, dots |-> t.dots, scale |-> t.scale, yes |-> t # NoT]
      [] q.o = "apply" -> LET r == ApplyT(SumT(q.t), S, q.f) IN [bits |-> r[1], scale |-> r[2]]
      [] q.o = "length" -> LET r == ApplyT(SumT(q.t), S, q.f) IN [frac |-> Length(r[1], r[2])]
=============================================================================
