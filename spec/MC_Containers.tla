--------------------------- MODULE MC_Containers ---------------------------
\* the bounded cache against a history variable: it holds exactly the cap most recently inserted different keys
EXTENDS Containers
Keys == 1..4
VARIABLES order, cap, hist, dict
vars == <<order, cap, hist, dict>>
Words == {<<>>, <<1>>, <<2>>, <<1, 1>>, <<1, 2>>, <<1, 1, 2>>}
Insert(k) == Len(hist) < 5 /\ order' = Touch(order, k, cap) /\ hist' = Append(hist, k) /\ UNCHANGED <<cap, dict>>
Add(w) == Len(hist) = 0 /\ Cardinality(DOMAIN dict) < 4 /\ ~Known(dict, w) /\ dict' = (w :> w) @@ dict /\ UNCHANGED <<order, cap, hist>>
Init == order = <<>> /\ cap \in 0..3 /\ hist = <<>> /\ dict = <<>>
Next == (\E k \in Keys : Insert(k)) \/ (\E w \in Words : Add(w))
Spec == Init /\ [][Next]_vars
Last(k) == IF \E i \in 1..Len(hist) : hist[i] = k THEN CHOOSE i \in 1..Len(hist) : hist[i] = k /\ \A j \in i + 1..Len(hist) : hist[j] # k ELSE 0
Newer(k) == {j \in Keys : Last(j) > Last(k)}
Bounded == Len(order) <= cap /\ Cardinality({order[i] : i \in 1..Len(order)}) = Len(order)
MostRecent == \A k \in Keys : InCache(order, k) <=> Last(k) > 0 /\ Cardinality(Newer(k)) < cap
Prefixes == \A w \in Words : /\ Known(dict, w) => HasPrefix(dict, w) /\ Value(dict, w) = w
                             /\ HasPrefix(dict, w) => \E x \in Words : CompletionOk(dict, w, x)
=============================================================================
