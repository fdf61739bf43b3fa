------------------------------ MODULE Literals ------------------------------
(* The values that literals in a text denote, and the text that is written   *)
(* for a value. A text is a sequence of code points.                         *)
(*                                                                           *)
(* Strings: "lily" (LilyPond: \n \t \" \' \\ are escapes, any other          *)
(* backslash stands for itself), "scm" (Scheme, R7RS: \n \t \r \a \b and     *)
(* the backslash before any other character stands for that character).      *)
(* Numbers: a numeral denotes a rational, complex or infinite number, or is  *)
(* not a numeral.                                                            *)
EXTENDS Integers, Sequences, TLC
BS == 92
DQ == 34
Escapes(kind) == IF kind = "lily" THEN (110 :> 10) @@ (116 :> 9) @@ (34 :> 34) @@ (39 :> 39) @@ (92 :> 92)
                 ELSE (110 :> 10) @@ (116 :> 9) @@ (114 :> 13) @@ (97 :> 7) @@ (98 :> 8) @@ (34 :> 34) @@ (92 :> 92)
\* no double quote that would end it
RECURSIVE ValidFrom(_, _)
ValidFrom(t, i) == IF i > Len(t) THEN TRUE
                   ELSE IF t[i] = DQ THEN FALSE
                   ELSE IF t[i] = BS THEN i < Len(t) /\ ValidFrom(t, i + 2)
                   ELSE ValidFrom(t, i + 1)
Valid(t) == ValidFrom(t, 1)
RECURSIVE ReadFrom(_, _, _)
ReadFrom(kind, t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE IF t[i] # BS THEN <<t[i]>> \o ReadFrom(kind, t, i + 1)
    ELSE IF t[i + 1] \in DOMAIN Escapes(kind) THEN <<Escapes(kind)[t[i + 1]]>> \o ReadFrom(kind, t, i + 2)
    ELSE IF kind = "lily" THEN <<BS, t[i + 1]>> \o ReadFrom(kind, t, i + 2)
    ELSE <<t[i + 1]>> \o ReadFrom(kind, t, i + 2)
StringValue(kind, t) == ReadFrom(kind, t, 1)
\* has an escape other than of a quote or backslash
RECURSIVE SpecialFrom(_, _)
SpecialFrom(t, i) == IF i > Len(t) THEN FALSE
                     ELSE IF t[i] # BS THEN SpecialFrom(t, i + 1)
                     ELSE t[i + 1] \notin {BS, DQ} \/ SpecialFrom(t, i + 2)
Special(t) == SpecialFrom(t, 1)
RECURSIVE WriteFrom(_, _)
WriteFrom(v, i) == IF i > Len(v) THEN <<>>
                   ELSE (IF v[i] \in {BS, DQ} THEN <<BS, v[i]>> ELSE <<v[i]>>) \o WriteFrom(v, i + 1)
StringText(v) == WriteFrom(v, 1)

\* ---- numerals
MINUS == 45
PLUS == 43
POINT == 46
SLASH == 47
HASH == 35
Lower(c) == IF c \in 65 .. 90 THEN c + 32 ELSE c
Digit(c) == IF c \in 48 .. 57 THEN c - 48 ELSE IF Lower(c) \in 97 .. 102 THEN Lower(c) - 87 ELSE 99
RECURSIVE Nat_(_, _, _)      \* the value of a sequence of digits
Nat_(t, radix, acc) == IF t = <<>> THEN acc ELSE Nat_(Tail(t), radix, acc * radix + Digit(Head(t)))
Digits(t, radix) == t # <<>> /\ \A i \in DOMAIN t : Digit(t[i]) < radix
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
NoNumber == [n |-> 0, d |-> 0]
Ratio(n, d) == LET g == Gcd(n, d) IN [n |-> n \div g, d |-> d \div g]
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Where(t, S) == {i \in DOMAIN t : t[i] \in S}
First(S) == CHOOSE i \in S : \A j \in S : i <= j
\* digits with at most one point
DecimalValue(t) ==
    LET ps == Where(t, {POINT}) IN
    IF ps = {} THEN (IF Digits(t, 10) THEN Ratio(Nat_(t, 10, 0), 1) ELSE NoNumber)
    ELSE LET p == First(ps)
             a == SubSeq(t, 1, p - 1)
             b == SubSeq(t, p + 1, Len(t))
         IN IF Digits(a \o b, 10) THEN Ratio(Nat_(a \o b, 10, 0), Pow(10, Len(b))) ELSE NoNumber
Scaled(r, e) == IF r.d = 0 THEN r ELSE IF e >= 0 THEN Ratio(r.n * Pow(10, e), r.d) ELSE Ratio(r.n, r.d * Pow(10, -e))
IntegerValue(t) == IF t # <<>> /\ t[1] \in {PLUS, MINUS} /\ Digits(Tail(t), 10) THEN (IF t[1] = MINUS THEN -1 ELSE 1) * Nat_(Tail(t), 10, 0)
                   ELSE Nat_(t, 10, 0)
\* exponents of more than a digit are not in the model
IsExponent(t) == LET d == IF t # <<>> /\ t[1] \in {PLUS, MINUS} THEN Tail(t) ELSE t IN Len(d) = 1 /\ Digits(d, 10) /\ Digit(d[1]) < 6
RealValue(t, radix) ==
    LET sl == Where(t, {SLASH})
        ex == IF radix = 10 THEN Where(t, {69, 101}) ELSE {}
    IN IF sl # {} THEN
           LET p == First(sl)
               a == SubSeq(t, 1, p - 1)
               b == SubSeq(t, p + 1, Len(t))
           IN IF Digits(a, radix) /\ Digits(b, radix) /\ Nat_(b, radix, 0) # 0 THEN Ratio(Nat_(a, radix, 0), Nat_(b, radix, 0)) ELSE NoNumber
       ELSE IF ex # {} THEN
           LET x == SubSeq(t, First(ex) + 1, Len(t))
               m == DecimalValue(SubSeq(t, 1, First(ex) - 1))
           IN IF IsExponent(x) THEN Scaled(m, IntegerValue(x)) ELSE NoNumber
       ELSE IF radix = 10 THEN DecimalValue(t)
       ELSE IF Digits(t, radix) THEN Ratio(Nat_(t, radix, 0), 1) ELSE NoNumber
Signed(t, radix) ==
    IF t # <<>> /\ t[1] \in {PLUS, MINUS} THEN
        LET r == RealValue(Tail(t), radix) IN [r EXCEPT !.n = IF t[1] = MINUS THEN -r.n ELSE r.n]
    ELSE RealValue(t, radix)
RadixOf(c) == CASE Lower(c) = 98 -> 2 [] Lower(c) = 111 -> 8 [] Lower(c) = 100 -> 10 [] Lower(c) = 120 -> 16 [] OTHER -> 0
\* infinity and "not a number" have a zero denominator
Tail0 == <<46, 48>>
Real(t, radix) == IF t = <<PLUS, 105, 110, 102>> \o Tail0 THEN [n |-> 1, d |-> 0]
                  ELSE IF t = <<MINUS, 105, 110, 102>> \o Tail0 THEN [n |-> -1, d |-> 0]
                  ELSE IF t = <<PLUS, 110, 97, 110>> \o Tail0 THEN [n |-> 2, d |-> 0]
                  ELSE Signed(t, radix)
\* the value of a numeral: the real part n/d and the imaginary part m/e
Both(re, im) == [n |-> re.n, d |-> re.d, m |-> im.n, e |-> im.d]
Nothing == Both(NoNumber, NoNumber)
IsNumber(v) == <<v.n, v.d>> # <<0, 0>> /\ <<v.m, v.e>> # <<0, 0>>
Last_(S) == CHOOSE i \in S : \A j \in S : j <= i
Complex(t, radix) ==
    IF t = <<>> \/ Lower(t[Len(t)]) # 105 THEN Both(Real(t, radix), [n |-> 0, d |-> 1])
    ELSE LET b == SubSeq(t, 1, Len(t) - 1)
             S == {p \in Where(b, {PLUS, MINUS}) : p = 1 \/ radix # 10 \/ Lower(b[p - 1]) # 101}
         IN IF S = {} THEN Nothing
            ELSE LET p == Last_(S)
                     im == SubSeq(b, p, Len(b))
                     one == [n |-> IF b[p] = MINUS THEN -1 ELSE 1, d |-> 1]
                 IN Both(IF p = 1 THEN [n |-> 0, d |-> 1] ELSE Real(SubSeq(b, 1, p - 1), radix), IF p = Len(b) THEN one ELSE Real(im, radix))
RECURSIVE Prefixed(_, _)
Prefixed(t, radix) ==
    IF Len(t) >= 2 /\ t[1] = HASH THEN
        IF RadixOf(t[2]) # 0 THEN Prefixed(SubSeq(t, 3, Len(t)), RadixOf(t[2]))
        ELSE IF Lower(t[2]) \in {101, 105} THEN Prefixed(SubSeq(t, 3, Len(t)), radix)
        ELSE Nothing
    ELSE Complex(t, radix)
NumberValue(t) == Prefixed(t, 10)
=============================================================================
