----------------------------- MODULE LiteralsMC -----------------------------
(* Every string and every numeral up to a size. Laws: the text written for a *)
(* value denotes that value and can stand between quotes; different values   *)
(* have different texts; a prefix or a sign does what it says.               *)
EXTENDS Literals, Json
CONSTANTS MaxStr, MaxNum, Chars, NumChars
VARIABLES kind, t
Init == kind \in {"str", "num"} /\ t = <<>>
Add(c) == t' = Append(t, c) /\ UNCHANGED kind
Next == \/ kind = "str" /\ Len(t) < MaxStr /\ \E c \in Chars : Add(c)
        \/ kind = "num" /\ Len(t) < MaxNum /\ \E c \in NumChars : Add(c)
Spec == Init /\ [][Next]_<<kind, t>>
\* t as a value
WriteRead == kind = "str" => /\ Valid(StringText(t))
                             /\ StringValue("lily", StringText(t)) = t
                             /\ StringValue("scm", StringText(t)) = t
\* t as the content of a string: reading, writing and reading is reading
ReadWrite == (kind = "str" /\ Valid(t)) => \A k \in {"lily", "scm"} : StringValue(k, StringText(StringValue(k, t))) = StringValue(k, t)
IsNum == IsNumber(NumberValue(t))
Laws == (kind = "num" /\ t # <<>> /\ IsNum) =>
    /\ t[1] \in 48 .. 57 => /\ NumberValue(<<MINUS>> \o t).n = -NumberValue(t).n
                            /\ NumberValue(<<PLUS>> \o t) = NumberValue(t)
                            /\ NumberValue(<<48>> \o t) = NumberValue(t)
                            /\ NumberValue(<<HASH, 100>> \o t) = NumberValue(t)
    /\ Lower(t[Len(t)]) = 105 => NumberValue(t).n = 0 \/ LET p == Last_(Where(t, {PLUS, MINUS})) IN
          /\ NumberValue(SubSeq(t, p, Len(t))) = [NumberValue(t) EXCEPT !.n = 0, !.d = 1]
          /\ NumberValue(SubSeq(t, 1, p - 1)) = [NumberValue(t) EXCEPT !.m = 0, !.e = 1]
    /\ Digits(t, 10) => /\ NumberValue(t \o <<POINT, 48>>) = NumberValue(t)
                        /\ NumberValue(t \o <<SLASH, 49>>) = NumberValue(t)
                        /\ NumberValue(t \o <<101, 49>>) = NumberValue(t \o <<48>>)
Emit == IF kind = "str" THEN (IF Valid(t) THEN PrintT(ToJson([k |-> kind, t |-> t])) ELSE TRUE)
        ELSE IF t # <<>> /\ IsNum THEN PrintT(ToJson([k |-> kind, t |-> t])) ELSE TRUE
=============================================================================
