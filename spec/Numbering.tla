----------------------------- MODULE Numbering -----------------------------
(* Number names.  Roman numerals by decimal place, letters by the successor  *)
(* of a letter string, English words by groups of three digits.  Letters are *)
(* numbers 0..base-1, words are strings.                                     *)
EXTENDS Integers, Sequences

\* --- roman: each decimal place is written on its own
Place(one, five, ten, d) ==
    CASE d = 0 -> <<>> [] d = 1 -> <<one>> [] d = 2 -> <<one, one>> [] d = 3 -> <<one, one, one>>
      [] d = 4 -> <<one, five>> [] d = 5 -> <<five>> [] d = 6 -> <<five, one>>
      [] d = 7 -> <<five, one, one>> [] d = 8 -> <<five, one, one, one>> [] d = 9 -> <<one, ten>>
Roman(n) == [i \in 1..(n \div 1000) |-> "M"] \o Place("C", "D", "M", (n \div 100) % 10)
            \o Place("X", "L", "C", (n \div 10) % 10) \o Place("I", "V", "X", n % 10)

\* --- letters
RECURSIVE NextL(_, _)
NextL(w, base) ==
    IF w = <<>> THEN <<0>>
    ELSE IF w[Len(w)] + 1 < base THEN [w EXCEPT ![Len(w)] = @ + 1]
    ELSE Append(NextL(SubSeq(w, 1, Len(w) - 1), base), 0)
RECURSIVE ValL(_, _)
ValL(w, base) == IF w = <<>> THEN 0 ELSE ValL(SubSeq(w, 1, Len(w) - 1), base) * base + w[Len(w)] + 1
\* w names n exactly if its value is n (the value is a bijection, see the model)

\* --- English words
To19 == <<"One", "Two", "Three", "Four", "Five", "Six", "Seven", "Eight", "Nine", "Ten", "Eleven", "Twelve",
          "Thirteen", "Fourteen", "Fifteen", "Sixteen", "Seventeen", "Eighteen", "Nineteen">>
Tens == <<"Ten", "Twenty", "Thirty", "Forty", "Fifty", "Sixty", "Seventy", "Eighty", "Ninety">>
Under100(n) == IF n = 0 THEN <<>> ELSE IF n < 20 THEN <<To19[n]>>
               ELSE <<Tens[n \div 10]>> \o (IF n % 10 = 0 THEN <<>> ELSE <<To19[n % 10]>>)
Group(n) == (IF n >= 100 THEN <<To19[n \div 100], "Hundred">> ELSE <<>>) \o Under100(n % 100)
Words(n) == IF n = 0 THEN <<"Zero">>
            ELSE (IF n >= 1000000 THEN Group(n \div 1000000) \o <<"Million">> ELSE <<>>)
                 \o (IF (n \div 1000) % 1000 > 0 THEN Group((n \div 1000) % 1000) \o <<"Thousand">> ELSE <<>>)
                 \o Group(n % 1000)
=============================================================================
