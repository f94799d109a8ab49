------------------------------ MODULE Numerals ------------------------------
(* decimal text as numbers, in thousandths *)
EXTENDS Text
IsDigit(ch) == ch >= 48 /\ ch <= 57
RECURSIVE Dec(_)
Dec(s) == IF s = <<>> THEN 0 ELSE 10 * Dec(TLCEval(SubSeq(s, 1, Len(s) - 1))) + (s[Len(s)] - 48)
Unsigned(s) == IF Len(s) > 0 /\ s[1] = 45 THEN Tail(s) ELSE s
DotAt(s) == LET d == {i \in 1..Len(s) : s[i] = 46} IN IF d = {} THEN Len(s) + 1 ELSE CHOOSE i \in d : \A j \in d : i <= j
AllDigits(s) == \A i \in 1..Len(s) : IsDigit(s[i])
ValidNum(s) == LET u == TLCEval(Unsigned(s)) k == TLCEval(DotAt(u)) IN
    \/ s = <<>>
    \/ k > 1 /\ AllDigits(SubSeq(u, 1, k - 1)) /\ AllDigits(SubSeq(u, k + 1, Len(u))) /\ Len(u) # k
\* text to thousandths
Milli(s) == IF s = <<>> THEN 0 ELSE
    LET u == TLCEval(Unsigned(s)) k == TLCEval(DotAt(u))
        whole == Dec(SubSeq(u, 1, k - 1))
        frac == TLCEval(SubSeq(u, k + 1, Min2(Len(u), k + 3)))
        f == Dec(frac) * (CASE Len(frac) = 0 -> 0 [] Len(frac) = 1 -> 100 [] Len(frac) = 2 -> 10 [] OTHER -> 1)
        m == whole * 1000 + f
    IN IF s[1] = 45 THEN -m ELSE m
=============================================================================
