--------------------------- MODULE MC_SmallFloat ---------------------------
\* walks over the numbers of every bias: their codes order like they do, and the conversion design yields a neighbour around each of them
EXTENDS SmallFloat
Biases == (0..15) \cup {-100, -20, 40, 100}
VARIABLES b, q, d
vars == <<b, q, d>>
Offsets == {0, 1, -1, 2, -2, 524287, 524288, 524289, -524288, -524289, 1048575, 8388607, -8388608}
SortedQ == [i \in 1..239 |-> IF i <= 119 THEN 248 - i ELSE IF i = 120 THEN 0 ELSE IF i = 121 THEN QTiny ELSE i - 121]
ASSUME {SortedQ[i] : i \in 1..239} \subseteq QNumbers
Init == b \in Biases /\ q = 1 /\ d = 0
NextCode == q < 239 /\ q' = q + 1 /\ d' = 0 /\ UNCHANGED b
Probe == d = 0 /\ \E o \in Offsets : o # 0 /\ d' = o /\ UNCHANGED <<b, q>>
Next == NextCode \/ Probe
Spec == Init /\ [][Next]_vars
K == QKey(SortedQ[q], b)
Ordered == q < 239 => K < QKey(SortedQ[q + 1], b)
RoundTrip == d = 0 => QDesign(K, b) = SortedQ[q]
Near == LET x == K + d IN Neighbour(x, QKey(QDesign(x, b), b), TLCEval(QKeys(b)))
SignKept == LET x == K + d r == QKey(QDesign(x, b), b) IN (x >= 0 => r >= 0) /\ (x <= 0 => r <= 0)
=============================================================================
