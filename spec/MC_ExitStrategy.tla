--------------------------- MODULE MC_ExitStrategy ---------------------------
(* The incremental rule against what the limits mean on the whole history.                   *)
EXTENDS ExitStrategy
CONSTANTS MaxEpochs, MaxLoss
VARIABLES m, s, hist, done
Limits == [patience: {1, 2}, elapsed: {3, 99}, epochs: {2, 9}, zero: {0, 1}, improve: {0, 1, 2}, min: {0, 3}, degr: {1, 8, 99}]
Init == m \in Limits /\ s = Fresh /\ hist = <<>> /\ done = FALSE
Epoch == /\ ~done /\ Len(hist) < MaxEpochs
         /\ \E x \in 0..MaxLoss : LET h == [k |-> Len(hist) + 1, loss |-> x, el |-> Len(hist) + 1] IN
              /\ hist' = Append(hist, h) /\ s' = See(m, s, h) /\ done' = Done(m, See(m, s, h), h)
         /\ UNCHANGED m
Spec == Init /\ [][Epoch]_<<m, s, hist, done>>
\* the epochs that improved on every earlier improvement by the required amount
Cur == hist[Len(hist)]
RECURSIVE LowOf(_)
LowOf(n) == IF n = 0 THEN None ELSE LET p == LowOf(n - 1) IN IF p = None \/ hist[n].loss + m.improve <= p THEN hist[n].loss ELSE p
StateIsHistory == hist # <<>> => s.low = LowOf(Len(hist))
\* without required improvement a history of ever lower losses never stops for patience or degradation
Falling == \A i \in 1..(Len(hist) - 1) : hist[i + 1].loss + m.improve < hist[i].loss
NoFalseStop == (hist # <<>> /\ Falling /\ done) => Reasons(m, s, Cur) \subseteq {"epochs", "time", "zero"}
NotEarly == done => Len(hist) >= m.min
StopsInTime == (Len(hist) >= m.min /\ Len(hist) >= m.epochs) => done
PatienceKept == (~done /\ Len(hist) >= m.min /\ hist # <<>>) => Cardinality({j \in 1..Len(hist) : j > s.at}) < m.patience
LowestBound == hist # <<>> => \A i \in 1..Len(hist) : s.low < hist[i].loss + m.improve \/ s.low = hist[i].loss
=============================================================================
