---------------------------- MODULE ExitStrategy ----------------------------
(* When training stops.  Limits: [patience, elapsed, epochs, zero, improve, min, degr]       *)
(* Losses, zero and improve in the same unit; degr in eighths of the lowest loss.            *)
(* A history is a sequence of [k, loss, el]: epoch number, its loss, time since the start.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == 1000000000   \* no loss yet
\* incremental form: lowest loss that counted as an improvement, and its epoch
Fresh == [low |-> None, at |-> 0]
Improves(m, s, loss) == s.low = None \/ loss + m.improve <= s.low
See(m, s, h) == IF Improves(m, s, h.loss) THEN [low |-> h.loss, at |-> h.k] ELSE s
\* reasons that hold after the history's state became s (s includes h)
TooMany(m, s, h) == h.k >= m.epochs
Degraded(m, s, h) == IF s.low = 0 THEN h.loss > 0 ELSE 8 * (h.loss - s.low) >= m.degr * s.low
TooLong(m, s, h) == h.el >= m.elapsed
Stuck(m, s, h) == h.k - s.at >= m.patience
Perfect(m, s, h) == h.loss <= m.zero
Reasons(m, s, h) == (IF TooMany(m, s, h) THEN {"epochs"} ELSE {}) \cup (IF Degraded(m, s, h) THEN {"degradation"} ELSE {})
                    \cup (IF TooLong(m, s, h) THEN {"time"} ELSE {}) \cup (IF Stuck(m, s, h) THEN {"patience"} ELSE {})
                    \cup (IF Perfect(m, s, h) THEN {"zero"} ELSE {})
Done(m, s, h) == h.k >= m.min /\ Reasons(m, s, h) # {}
=============================================================================
