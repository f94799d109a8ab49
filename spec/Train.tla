------------------------------- MODULE Train -------------------------------
(* Training as the loop a user relies on: epochs over all records in any order, the network   *)
(* updated after every full batch and after the last partial one, losses averaged over the    *)
(* records of the epoch, the knowledge with the lowest loss kept.  A network is its version:  *)
(* how often it was updated.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,    \* settings of this training [batch, best, n, nt]
          ph,     \* "idle", "train", "apply", "test", "bad" (a loss that is no number)
          ver,    \* version of the network now
          seen, tseen,   \* training and test records used in this epoch
          inBatch,       \* records since the last update
          sum, tsum,     \* losses of this epoch, added up over training and test records
          hist           \* finished epochs: [ver, num, den, tnum] - judged loss num/den, training loss tnum
tvars == <<cfg, ph, ver, seen, tseen, inBatch, sum, tsum, hist>>
TInit == cfg = <<>> /\ ph = "idle" /\ ver = 0 /\ seen = {} /\ tseen = {} /\ inBatch = 0 /\ sum = 0 /\ tsum = 0 /\ hist = <<>>
Usable(s) == s.batch >= 1 /\ s.batch <= s.n
StartTraining(s) == /\ ph = "idle" /\ cfg' = s /\ ph' = (IF Usable(s) THEN "train" ELSE "idle") /\ hist' = <<>>
                    /\ seen' = {} /\ tseen' = {} /\ inBatch' = 0 /\ sum' = 0 /\ tsum' = 0 /\ UNCHANGED ver
MustUpdate == inBatch > 0 /\ (inBatch = cfg.batch \/ Cardinality(seen) = cfg.n)
\* one training record with this loss (negative: no number)
Learn(id, loss) == /\ ph = "train" /\ ~MustUpdate /\ id \in (1..cfg.n) \ seen
                   /\ seen' = seen \cup {id} /\ inBatch' = inBatch + 1 /\ sum' = sum + loss
                   /\ ph' = (IF loss < 0 THEN "bad" ELSE ph) /\ UNCHANGED <<cfg, ver, tseen, tsum, hist>>
UpdateNet == ph = "train" /\ MustUpdate /\ ver' = ver + 1 /\ inBatch' = 0 /\ UNCHANGED <<cfg, ph, seen, tseen, sum, tsum, hist>>
EpochLearned == ph = "train" /\ inBatch = 0 /\ Cardinality(seen) = cfg.n
TestOn(id, loss) == /\ EpochLearned /\ id \in (1..cfg.nt) \ tseen
                    /\ tseen' = tseen \cup {id} /\ tsum' = tsum + loss /\ UNCHANGED <<cfg, ph, ver, seen, inBatch, sum, hist>>
Judged(outs) == [ver |-> ver, tnum |-> sum,
                 num |-> IF cfg.nt > 0 THEN tsum ELSE sum, den |-> outs * (IF cfg.nt > 0 THEN cfg.nt ELSE cfg.n)]
EndEpoch(outs) == /\ EpochLearned /\ Cardinality(tseen) = cfg.nt
                  /\ hist' = Append(hist, Judged(outs)) /\ seen' = {} /\ tseen' = {} /\ sum' = 0 /\ tsum' = 0
                  /\ UNCHANGED <<cfg, ph, ver, inBatch>>
Lowest == CHOOSE m \in {hist[i].num : i \in 1..Len(hist)} : \A i \in 1..Len(hist) : m <= hist[i].num
BestVersions == {hist[i].ver : i \in {i \in 1..Len(hist) : hist[i].num = Lowest}}
\* training ends with the version kept
Finish(v) == /\ ph = "train" /\ hist # <<>> /\ seen = {} /\ inBatch = 0
             /\ v \in (IF cfg.best THEN BestVersions ELSE {ver}) /\ ver' = v /\ ph' = "idle"
             /\ UNCHANGED <<cfg, seen, tseen, inBatch, sum, tsum, hist>>
Fail == ph = "bad" /\ ph' = "idle" /\ hist' = <<>> /\ UNCHANGED <<cfg, ver, seen, tseen, inBatch, sum, tsum>>
=============================================================================
