---- MODULE MC_Hyperband ----
(* every search over few configurations and scores *)
EXTENDS Hyperband
CONSTANTS MaxN, Worths
WorthSet == {1, 3, Worst}
Init == \E k \in 0..MaxN, f \in 2..3, t \in {2, 9} : set = [n |-> k, res |-> 9, factor |-> f, target |-> t, all |-> 7]
        /\ round = 0 /\ n = SizeOf(set) /\ prev = <<>> /\ cur = <<>> /\ hist = <<>>
\* ids in order of first evaluation
Ids == IF round = 0 /\ Full = FALSE THEN {Cardinality(DOMAIN cur) + 1} ELSE 1..MaxN
Eval == \E id \in Ids, w \in Worths, a \in BOOLEAN : (a \/ w = Worst) /\ Evaluate(id, w, a, 0)
Next == Eval
Spec == Init /\ [][Next]_hvars
\* a search can always go on or is over; it never ends in the middle of a round
Live == Over \/ ENABLED Next
\* it takes as many rounds as there are reductions to at most one
Rounds == round = 0 \/ Power(set.factor, round) * n <= SizeOf(set)
Cost == Len(hist) <= 2 * SizeOf(set)
\* whoever is left has beaten, or tied with, whoever was dropped, in every round; so the best of a round is never dropped
BestStays == (round > 0 /\ Full) => Kept(prev, cur, 0)
BestOfRound == (round > 0 /\ Full) => \E k \in DOMAIN cur : \A d \in DOMAIN prev : prev[k] >= prev[d]
Answer == (Over /\ Seen # {}) => \E w \in Winners(0) : \A h \in Seen : \E g \in Seen : g[1] = w /\ g[2] >= h[2]
Less == \A k \in 1..round : Resources(set, k) <= Resources(set, k - 1) /\ Resources(set, k) >= 2
====
