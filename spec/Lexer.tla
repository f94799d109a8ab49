------------------------------- MODULE Lexer -------------------------------
(* Tokens of happyml scripts: longest match, the earlier rule wins ties.  Text is a sequence of bytes. *)
EXTENDS Numerals
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == TLCEval([ch \in {SubSeq(Ascii, i, i) : i \in 1..95} |-> 31 + (CHOOSE i \in 1..95 : SubSeq(Ascii, i, i) = ch)])
Codes(s) == [i \in 1..Len(s) |-> CodeOf[SubSeq(s, i, i)]]
KeywordNames == <<"copy", "create", "delete", "describe", "execute", "exit", "help", "list", "move", "print", "refine", "set",
    "accuracy", "dataset", "datasets", "future", "image", "input", "label", "memory", "number", "speed", "task", "tasks", "text",
    "at", "expected", "given", "goal", "header", "limit", "pretty", "raw", "starting", "test", "to", "using", "with">>
NK == Len(KeywordNames)
Keywords == TLCEval([k \in 1..NK |-> TLCEval(Codes(KeywordNames[k]))])
Lower(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE ch
LowerAll(s) == [i \in 1..Len(s) |-> Lower(s[i])]
Alpha(ch) == (ch >= 65 /\ ch <= 90) \/ (ch >= 97 /\ ch <= 122)
WordBody(ch) == Alpha(ch) \/ IsDigit(ch) \/ ch = 95
\* the first position at or after i whose byte is not in S
RECURSIVE Run(_, _, _)
Run(t, i, S) == IF i <= Len(t) /\ t[i] \in S THEN Run(t, i + 1, S) ELSE i
Digits == 48..57
WordBodies == {ch \in 0..255 : WordBody(ch)}
NotNewline == (0..255) \ {10}
\* one past the closing quote, or 0
RECURSIVE StringEnd(_, _, _)
StringEnd(t, j, q) == IF j > Len(t) THEN 0
                      ELSE IF t[j] = 92 /\ j < Len(t) /\ t[j + 1] = q THEN StringEnd(t, j + 2, q)
                      ELSE IF t[j] = q THEN j + 1 ELSE StringEnd(t, j + 1, q)
Punct == << <<40, "_open_parenthesis">>, <<41, "_close_parenthesis">>, <<91, "_open_bracket">>, <<93, "_close_bracket">>, <<61, "_equal">>,
            <<58, "_colon">>, <<47, "_slash">>, <<46, "_dot">>, <<37, "_percent">>, <<92, "_backslash">>, <<34, "_double_quote">>,
            <<39, "_single_quote">>, <<44, "_comma">>, <<95, "_underscore">>,
            <<10, "_newline">>, <<9, "_tab">>, <<13, "_return">>, <<32, "_space">> >>
Skipped == {"_comment", "_newline", "_tab", "_return", "_space"}
RuleCount == NK + 4 + Len(Punct)
LabelOf(k) == IF k <= NK THEN "_" \o KeywordNames[k]
              ELSE IF k <= NK + 4 THEN <<"_comment", "_string", "_number", "_word">>[k - NK]
              ELSE Punct[k - NK - 4][2]
MatchLen(k, t, i) ==
    IF k <= NK THEN LET w == Keywords[k] IN
         IF i + Len(w) - 1 <= Len(t) /\ \A j \in 1..Len(w) : Lower(t[i + j - 1]) = w[j] THEN Len(w) ELSE 0
    ELSE IF k = NK + 1 THEN IF t[i] = 35 THEN Run(t, i, NotNewline) - i ELSE 0
    ELSE IF k = NK + 2 THEN IF t[i] \in {34, 39} THEN LET e == StringEnd(t, i + 1, t[i]) IN IF e = 0 THEN 0 ELSE e - i ELSE 0
    ELSE IF k = NK + 3 THEN LET a == Run(t, i, Digits)
                                b == IF a <= Len(t) /\ t[a] = 46 THEN a + 1 ELSE a
                            IN Run(t, b, Digits) - i
    ELSE IF k = NK + 4 THEN IF Alpha(t[i]) THEN Run(t, i, WordBodies) - i ELSE 0
    ELSE IF t[i] = Punct[k - NK - 4][1] THEN 1 ELSE 0
\* the longest match at i: [k, n], n = 0 when no rule matches
Longest(t, i) == LET m == TLCEval([k \in 1..RuleCount |-> MatchLen(k, t, i)])
                     n == CHOOSE x \in {m[k] : k \in 1..RuleCount} : \A k \in 1..RuleCount : m[k] <= x
                 IN [n |-> n, k |-> CHOOSE k \in 1..RuleCount : m[k] = n /\ \A j \in 1..k - 1 : m[j] # n]
\* every token, skipped ones included; the last one has label "error" when nothing matches
RECURSIVE AllTokens(_, _)
AllTokens(t, i) == IF i > Len(t) THEN <<>>
    ELSE LET b == TLCEval(Longest(t, i))
         IN IF b.n = 0 THEN << [label |-> "error", off |-> i - 1, text |-> SubSeq(t, i, Len(t))] >>
            ELSE << [label |-> LabelOf(b.k), off |-> i - 1, text |-> TLCEval(SubSeq(t, i, i + b.n - 1))] >> \o AllTokens(t, i + b.n)
Lex(t) == LET all == TLCEval(AllTokens(t, 1))
          IN IF Len(all) > 0 /\ all[Len(all)].label = "error" THEN [ok |-> FALSE, toks |-> <<>>]
             ELSE [ok |-> TRUE, toks |-> TLCEval(SelectSeq(all, LAMBDA x : x.label \notin Skipped))]
=============================================================================
