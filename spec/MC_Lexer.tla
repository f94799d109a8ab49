------------------------------ MODULE MC_Lexer ------------------------------
(* every short text over an alphabet that makes rules compete *)
EXTENDS Lexer
CONSTANTS Alphabet, MaxLen
VARIABLES text, pos, out, failed
vars == <<text, pos, out, failed>>
Init == text \in UNION {[1..n -> Alphabet] : n \in 0..MaxLen} /\ pos = 1 /\ out = <<>> /\ failed = FALSE
Take == /\ ~failed /\ pos <= Len(text)
        /\ LET b == Longest(text, pos)
           IN /\ b.n > 0
              /\ out' = Append(out, [label |-> LabelOf(b.k), off |-> pos - 1, text |-> SubSeq(text, pos, pos + b.n - 1)])
              /\ pos' = pos + b.n
        /\ UNCHANGED <<text, failed>>
Fail == ~failed /\ pos <= Len(text) /\ Longest(text, pos).n = 0 /\ failed' = TRUE /\ UNCHANGED <<text, pos, out>>
Next == Take \/ Fail
Spec == Init /\ [][Next]_vars
NothingLost == Flatten([i \in 1..Len(out) |-> out[i].text]) = SubSeq(text, 1, pos - 1)
NoEmpty == \A i \in 1..Len(out) : Len(out[i].text) > 0
\* no word is split: a word token is never directly followed by a word or keyword
NoSplitWord == \A i \in 1..Len(out) - 1 : Alpha(out[i].text[1]) => ~Alpha(out[i + 1].text[1])
Agrees == pos > Len(text) => Lex(text).ok /\ Lex(text).toks = SelectSeq(out, LAMBDA x : x.label \notin Skipped)
FailsTogether == failed => ~Lex(text).ok
=============================================================================
