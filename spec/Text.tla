-------------------------------- MODULE Text --------------------------------
(* Text as sequences of byte codes.                                           *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
NL == 10
CR == 13
TAB == 9
SP == 32
QUOTE == 34

IsSpace(ch) == ch = 32 \/ (ch >= 9 /\ ch <= 13)

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* lines as getline sees them: the last line need not end in a newline
Lines(s) ==
    LET ends == {i \in 1..Len(s) : s[i] = NL}
        cuts == SetToSortSeq(ends, LAMBDA a, b : a < b)
        n == Len(cuts)
        from(k) == IF k = 1 THEN 1 ELSE cuts[k - 1] + 1
        body == [k \in 1..n |-> SubSeq(s, from(k), cuts[k] - 1)]
        last == IF n = 0 THEN 1 ELSE cuts[n] + 1
    IN IF last <= Len(s) THEN Append(body, SubSeq(s, last, Len(s))) ELSE body

\* concatenation of <<line, newline>> for every line
RECURSIVE Unlines(_)
Unlines(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<NL>> \o Unlines(TLCEval(Tail(ls)))

\* byte order
LexLess(a, b) ==
    LET m == Min2(Len(a), Len(b))
        d == {i \in 1..m : a[i] # b[i]}
    IN IF d = {} THEN Len(a) < Len(b)
       ELSE LET i == CHOOSE j \in d : \A k \in d : j <= k IN a[i] < b[i]

Strip(s) ==
    LET keep == {i \in 1..Len(s) : ~IsSpace(s[i])}
    IN IF keep = {} THEN <<>>
       ELSE LET lo == CHOOSE i \in keep : \A j \in keep : i <= j
                hi == CHOOSE i \in keep : \A j \in keep : i >= j
            IN SubSeq(s, lo, hi)

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(TLCEval(Tail(ss)))
=============================================================================
