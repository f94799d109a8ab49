----------------------------- MODULE DelimText ------------------------------
(* Delimited text: how a file is split into records, and how records are written.        *)
EXTENDS Text
LT == 60 \* <
US == 95 \* _
TI == 126 \* ~
GT == 62 \* >
CD == 68 \* D
CN == 78 \* N

(* ---- escapes used inside fields: <_< is <, <~D> the delimiter, <~N> a newline ---- *)
RECURSIVE Unescape(_, _)
Unescape(s, d) ==
    IF s = <<>> THEN <<>>
    ELSE IF Len(s) >= 3 /\ SubSeq(s, 1, 3) = <<LT, US, LT>> THEN <<LT>> \o Unescape(SubSeq(s, 4, Len(s)), d)
    ELSE IF Len(s) >= 4 /\ SubSeq(s, 1, 4) = <<LT, TI, CD, GT>> THEN <<d>> \o Unescape(SubSeq(s, 5, Len(s)), d)
    ELSE IF Len(s) >= 4 /\ SubSeq(s, 1, 4) = <<LT, TI, CN, GT>> THEN <<NL>> \o Unescape(SubSeq(s, 5, Len(s)), d)
    ELSE <<Head(s)>> \o Unescape(Tail(s), d)

RECURSIVE Escape(_, _)
Escape(s, d) ==
    IF s = <<>> THEN <<>>
    ELSE (CASE Head(s) = LT -> <<LT, US, LT>>
            [] Head(s) = d -> <<LT, TI, CD, GT>>
            [] Head(s) = NL -> <<LT, TI, CN, GT>>
            [] OTHER -> <<Head(s)>>) \o Escape(Tail(s), d)

Field(w, d) == Unescape(Strip(w), d)

(* ---- the splitter, one character at a time ---- *)
\* s: inq inside quotes; q: the previous character closed the quotes and may turn out to be
\* the first half of a doubled quote; word, rec: field and record so far; recs: finished; open: a record is under way
S0 == [inq |-> FALSE, q |-> FALSE, word |-> <<>>, rec |-> <<>>, recs |-> <<>>, open |-> FALSE]
EndField(s, d) == [s EXCEPT !.rec = Append(@, Field(s.word, d)), !.word = <<>>, !.q = FALSE]
EndRecord(s, d) == LET t == EndField(s, d) IN [t EXCEPT !.recs = Append(@, t.rec), !.rec = <<>>, !.open = FALSE]
Char(s0, ch, d) ==
    LET s == [s0 EXCEPT !.open = TRUE] IN
    IF ch = QUOTE THEN
        IF s.inq THEN [s EXCEPT !.inq = FALSE, !.q = TRUE]
        ELSE IF s.q THEN [s EXCEPT !.inq = TRUE, !.q = FALSE, !.word = Append(@, QUOTE)]
        ELSE [s EXCEPT !.inq = TRUE]
    ELSE IF s.inq THEN [s EXCEPT !.word = Append(@, ch)]
    ELSE IF ch = NL THEN EndRecord(s, d)
    ELSE IF ch = d THEN EndField(s, d)
    ELSE [s EXCEPT !.word = Append(@, ch), !.q = FALSE]
\* the text as delivered line by line: every line ends in a newline
Normal(text) == Unlines(Lines(text))
Scan(text, d) == FoldLeft(LAMBDA s, ch : Char(s, ch, d), S0, Normal(text))
Records(text, d) == Scan(text, d).recs
Unclosed(text, d) == Scan(text, d).inq

(* ---- a writer that quotes and escapes ---- *)
RECURSIVE DoubleQuotes(_)
DoubleQuotes(s) == IF s = <<>> THEN <<>>
                   ELSE (IF Head(s) = QUOTE THEN <<QUOTE, QUOTE>> ELSE <<Head(s)>>) \o DoubleQuotes(Tail(s))
WriteCell(cell, d) == IF cell = <<>> THEN <<>> ELSE <<QUOTE>> \o Escape(DoubleQuotes(cell), d) \o <<QUOTE>>
RECURSIVE WriteRecord(_, _)
WriteRecord(r, d) == IF Len(r) = 1 THEN WriteCell(r[1], d) \o <<NL>>
                     ELSE WriteCell(r[1], d) \o <<d>> \o WriteRecord(Tail(r), d)
Write(recs, d) == Flatten([i \in 1..Len(recs) |-> WriteRecord(recs[i], d)])

(* skipping a header drops exactly one line of each file *)
SkipOne(text) == Unlines(LET ls == Lines(text) IN IF ls = <<>> THEN <<>> ELSE Tail(ls))

(* all lines of all files, files in some order *)
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j]}
LinesOfDir(files, skip, lines) ==
    LET ls(i) == LET all == Lines(files[i]) IN IF skip /\ all # <<>> THEN Tail(all) ELSE all
    IN \E p \in Perms(Len(files)) : lines = Flatten([i \in 1..Len(files) |-> ls(p[i])])
=============================================================================
