----------------------------- MODULE DurationMC -----------------------------
(* Enumerates queries over small values, checks the laws of the durations    *)
(* and emits every query with its answer for the replay into the code.       *)
EXTENDS Duration, TLC, Json
CONSTANTS Lo, Hi, MaxDots, W
VARIABLES q
NoQ == [o |-> "none", s |-> <<>>, l |-> 0, d |-> 0, t |-> <<>>, f |-> <<1, 1>>]
SeqOf(S) == LET RECURSIVE g(_)
                g(T) == IF T = {} THEN <<>> ELSE LET x == MinOf(T) IN <<x>> \o g(T \ {x})
            IN g(S)
Values == {Dur(l, d) : l \in (0 - Lo)..Hi, d \in 0..MaxDots}
Odd == {{a + i : i \in T} : a \in (0 - 4)..4, T \in (SUBSET (0..W)) \ {{}}}
Scales == {<<1, 1>>, <<2, 3>>, <<3, 2>>, <<1, 7>>, <<5, 1>>}
Trans == {[log |-> l, dots |-> d, scale |-> f] : l \in (0 - 2)..2, d \in (0 - 2)..2, f \in {<<1, 1>>, <<2, 3>>, <<3, 2>>}}
TFew == {[log |-> 1, dots |-> 0, scale |-> <<1, 1>>], [log |-> 0, dots |-> 0 - 1, scale |-> <<2, 3>>], [log |-> 0 - 1, dots |-> 2, scale |-> <<5, 1>>],
         [log |-> 0, dots |-> 1, scale |-> <<1, 1>>], NoT}
Init == q = NoQ
Next ==
    /\ q.o = "none"
    /\ \E x \in {
          "dur", "from", "log", "shift", "str", "writable", "add", "apply", "length"} :
       CASE x = "dur" -> \E l \in (0 - Lo)..Hi, d \in 0..MaxDots : q' = [NoQ EXCEPT !.o = x, !.l = l, !.d = d]
         [] x = "from" -> \E l \in ((0 - 3)..Hi) \cup {1000, 1003, 1005, 2000}, d \in 0..MaxDots : q' = [NoQ EXCEPT !.o = x, !.l = l, !.d = d]
         [] x \in {"log", "str", "writable"} -> \E S \in Values \cup Odd : q' = [NoQ EXCEPT !.o = x, !.s = SeqOf(S)]
         [] x = "shift" -> \E S \in Values, l \in (0 - 4)..4, d \in (0 - 4)..4 : q' = [NoQ EXCEPT !.o = x, !.s = SeqOf(S), !.l = l, !.d = d]
         [] x = "add" -> \E a, b \in Trans : \E ts \in {<<a>>, <<a, b>>} : q' = [NoQ EXCEPT !.o = x, !.t = ts]
         [] OTHER -> \E l \in (0 - 3)..4, d \in 0..3, f \in Scales, a, b \in TFew : \E ts \in {<<a>>, <<a, b>>} :
                         q' = [NoQ EXCEPT !.o = x, !.s = SeqOf(Dur(l, d)), !.f = f, !.t = ts]
Spec == Init /\ [][Next]_q
\* laws
S0 == {q.s[i] : i \in DOMAIN q.s}
ShiftInverts == q.o = "shift" /\ Dots(S0) + q.d >= 0 => Shift(Shift(S0, q.l, q.d), 0 - q.l, 0 - q.d) = S0
ShiftComposes == q.o = "shift" /\ Dots(S0) + q.d >= 0 => Shift(Shift(S0, q.l, 0), 0, q.d) = Shift(S0, q.l, q.d)
SplitJoins == q.o = "dur" => Log(Dur(q.l, q.d)) = q.l /\ Dots(Dur(q.l, q.d)) = q.d
TruncSmaller == q.o = "log" => Truncated(S0) \subseteq S0
AddComposes == q.o = "apply" /\ Len(q.t) = 2 =>
    LET r == ApplyT(q.t[1], S0, q.f) IN
    Dots(S0) + q.t[1].dots >= 0 => ApplyT(q.t[2], r[1], r[2]) = ApplyT(SumT(q.t), S0, q.f)
Emit == q.o # "none" => PrintT(ToJson([q |-> q, want |-> AnswerD(q)]))
=============================================================================
