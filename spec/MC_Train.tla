------------------------------ MODULE MC_Train ------------------------------
EXTENDS Train
CONSTANTS MaxN, MaxEpochs, MaxLoss
Losses == (0 - 1)..MaxLoss
VARIABLES used, made   \* used: record -> times learned from in finished epochs; made: updates in this training
Init == TInit /\ used = <<>> /\ made = 0
Start == \E n \in 1..MaxN, b \in 0..(MaxN + 1), t \in 0..1, best \in BOOLEAN :
           cfg = <<>> /\ StartTraining([batch |-> b, best |-> best, n |-> n, nt |-> t]) /\ used' = [i \in 1..n |-> 0] /\ made' = 0
DoLearn == \E i \in 1..MaxN, x \in Losses : Learn(i, x) /\ used' = [used EXCEPT ![i] = @ + 1] /\ UNCHANGED made
DoUpdate == UpdateNet /\ made' = made + 1 /\ UNCHANGED used
DoTest == \E x \in Losses \ {0 - 1} : TestOn(1, x) /\ UNCHANGED <<used, made>>
DoEpoch == Len(hist) < MaxEpochs /\ EndEpoch(1) /\ UNCHANGED <<used, made>>
DoFinish == \E v \in 0..20 : Finish(v) /\ UNCHANGED <<used, made>>
DoFail == Fail /\ UNCHANGED <<used, made>>
Next == Start \/ DoLearn \/ DoUpdate \/ DoTest \/ DoEpoch \/ DoFinish \/ DoFail
Spec == Init /\ [][Next]_<<tvars, used, made>>
Evenly == (ph = "train" /\ seen = {}) => \A i \in DOMAIN used : used[i] = Len(hist)
\* ceil(n/batch) updates per epoch
Updates == (ph = "train" /\ seen = {} /\ hist # <<>>) => made = Len(hist) * ((cfg.n + cfg.batch - 1) \div cfg.batch)
NeverRefusedUsable == ph # "idle" => Usable(cfg)
KeptIsBest == (ph = "idle" /\ hist # <<>> /\ cfg.best /\ hist[Len(hist)].num >= 0 /\ sum >= 0) => ver \in BestVersions \/ ph # "idle"
BatchBound == cfg = <<>> \/ inBatch = 0 \/ inBatch <= cfg.batch
=============================================================================
