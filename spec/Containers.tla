----------------------------- MODULE Containers -----------------------------
(* A bounded cache (its order is a sequence, least recent first) and a prefix dictionary (a function from words). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InCache(order, k) == \E i \in 1..Len(order) : order[i] = k
Touch(order, k, cap) == LET rest == SelectSeq(order, LAMBDA x : x # k)
                            kept == IF Len(rest) >= cap /\ cap > 0 THEN SubSeq(rest, Len(rest) - cap + 2, Len(rest)) ELSE rest
                        IN IF cap = 0 THEN <<>> ELSE Append(kept, k)
-----------------------------------------------------------------------------
StartsWith(w, p) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
Known(d, w) == w \in DOMAIN d
HasPrefix(d, p) == p = <<>> \/ \E w \in DOMAIN d : StartsWith(w, p)
Value(d, w) == IF Known(d, w) THEN d[w] ELSE <<>>
\* a longest word with the prefix, the prefix itself when no longer one is known, nothing when no word has it
CompletionOk(d, p, x) ==
    IF ~HasPrefix(d, p) THEN x = <<>>
    ELSE LET ws == {w \in DOMAIN d : StartsWith(w, p) /\ Len(w) > Len(p)}
         IN IF ws = {} THEN x = p ELSE x \in ws /\ \A w \in ws : Len(w) <= Len(x)
-----------------------------------------------------------------------------
One(i, n, unit) == [j \in 1..n |-> IF j = i THEN unit ELSE 0]
Zero(n) == [j \in 1..n |-> 0]
IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
=============================================================================
