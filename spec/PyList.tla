------------------------------- MODULE PyList -------------------------------
(* The index and slice rules of a plain mutable list, 0-based, with negative *)
(* and out-of-range indices.  NoIdx stands for an omitted slice bound.       *)
EXTENDS Integers, Sequences

NoIdx == 999

Clamp(i, lo, hi) == IF i < lo THEN lo ELSE IF i > hi THEN hi ELSE i
Abs(i) == IF i < 0 THEN 0 - i ELSE i
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* index of an item: negative counts from the end
ItemIdx(i, n) == IF i < 0 THEN i + n ELSE i
ItemOK(i, n)  == ItemIdx(i, n) >= 0 /\ ItemIdx(i, n) < n

\* the indices a slice start:stop:step (step # 0) selects in a list of length n
SliceStart(i, n, k) ==
    IF k > 0 THEN IF i = NoIdx THEN 0 ELSE Clamp(ItemIdx(i, n), 0, n)
             ELSE IF i = NoIdx THEN n - 1 ELSE Clamp(ItemIdx(i, n), 0 - 1, n - 1)
SliceStop(j, n, k) ==
    IF k > 0 THEN IF j = NoIdx THEN n ELSE Clamp(ItemIdx(j, n), 0, n)
             ELSE IF j = NoIdx THEN 0 - 1 ELSE Clamp(ItemIdx(j, n), 0 - 1, n - 1)

SliceLen(a, b, k) ==
    IF k > 0 THEN IF a < b THEN (b - a - 1) \div k + 1 ELSE 0
             ELSE IF b < a THEN (a - b - 1) \div (0 - k) + 1 ELSE 0

SliceIdx(i, j, k, n) ==
    LET a == SliceStart(i, n, k)
        b == SliceStop(j, n, k)
    IN [m \in 1..SliceLen(a, b, k) |-> a + (m - 1) * k]

SeqRange(s) == {s[i] : i \in 1..Len(s)}

\* s[i:j] = x  (step 1)
SetSlice(s, i, j, x) ==
    LET n == Len(s)
        a == SliceStart(i, n, 1)
        b == Max2(a, SliceStop(j, n, 1))
    IN SubSeq(s, 1, a) \o x \o SubSeq(s, b + 1, n)

DropIdx(s, idxs) ==      \* s without the 0-based indices in the set idxs
    LET RECURSIVE f(_)
        f(m) == IF m > Len(s) THEN <<>>
                ELSE IF (m - 1) \in idxs THEN f(m + 1) ELSE <<s[m]>> \o f(m + 1)
    IN f(1)

Insert(s, i, x) ==
    LET a == Clamp(ItemIdx(i, Len(s)), 0, Len(s))
    IN SubSeq(s, 1, a) \o <<x>> \o SubSeq(s, a + 1, Len(s))

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

FirstPos(s, x) ==        \* 0-based position of the first x, -1 if absent
    IF \E i \in 1..Len(s) : s[i] = x
    THEN (CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i-1) : s[j] # x) - 1
    ELSE 0 - 1
=============================================================================
