------------------------------ MODULE Hyperband ------------------------------
(* Successive halving: a search evaluates n configurations, keeps the best n \div f of them *)
(* for the next round, and so on until one is left or the target is passed; it answers the  *)
(* configuration with the best score it saw.  Scores are worths: more is better.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES set,    \* what was asked for: [n, res, factor, target, all]
          round, n, prev, cur,   \* scores of the last and of the current round by configuration
          hist    \* every evaluation: <<configuration, worth, can be answered>>
hvars == <<set, round, n, prev, cur, hist>>
Worst == -999999999
SizeOf(s) == IF s.n < 0 \/ s.n > s.all THEN (LET m == IF s.all \div 10000 > 10 THEN s.all \div 10000 ELSE 10 IN IF s.all < m THEN s.all ELSE m) ELSE s.n
RECURSIVE Power(_, _)
Power(b, e) == IF e = 0 THEN 1 ELSE b * Power(b, e - 1)
Resources(s, r) == LET q == IF s.factor = 0 THEN 2 ELSE s.res \div Power(s.factor, r) IN IF q > 2 THEN q ELSE 2
Sane(s) == s.factor >= 2
Start(s) == /\ set' = s /\ round' = 0 /\ n' = SizeOf(s) /\ prev' = <<>> /\ cur' = <<>> /\ hist' = <<>>
Seen == {h \in {hist[i] : i \in 1..Len(hist)} : h[3]}
Passed == \E h \in Seen : h[2] > set.target
Full == Cardinality(DOMAIN cur) = n
\* slack: how exact the scores are
Kept(old, new, slack) == \A k \in DOMAIN new, d \in DOMAIN old : d \notin DOMAIN new => old[k] + slack >= old[d]
\* no more than k others are better
Among(old, id, k, slack) == Cardinality({d \in DOMAIN old : old[d] > old[id] + slack}) < k
With(f, k, x) == [j \in (DOMAIN f) \cup {k} |-> IF j = k THEN x ELSE f[j]]
Evaluate(id, worth, answerable, slack) ==
    \/ /\ Full = FALSE
       /\ id \notin DOMAIN cur /\ (round = 0 \/ (id \in DOMAIN prev /\ Among(prev, id, n, slack))) = TRUE
       /\ LET next == TLCEval(With(cur, id, worth)) IN
          /\ (round = 0 \/ Cardinality(DOMAIN next) < n \/ Kept(prev, next, slack)) = TRUE
          /\ cur' = next
       /\ hist' = Append(hist, <<id, worth, answerable>>)
       /\ UNCHANGED <<set, round, n, prev>>
    \/ \* the first of the next round
       /\ Full = TRUE /\ Passed = FALSE /\ n \div set.factor > 1
       /\ id \in DOMAIN cur /\ Among(cur, id, n \div set.factor, slack) = TRUE
       /\ round' = round + 1 /\ n' = n \div set.factor /\ prev' = cur /\ cur' = With(<<>>, id, worth)
       /\ hist' = Append(hist, <<id, worth, answerable>>)
       /\ UNCHANGED set
Over == Full /\ (Passed \/ n \div set.factor <= 1)
\* the configurations that may be answered
Winners(slack) == {h[1] : h \in {g \in Seen : \A o \in Seen : g[2] + slack >= o[2]}}
==============================================================================
