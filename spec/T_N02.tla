---- MODULE T_N02 ----
EXTENDS Train, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, upd   \* upd: probes updated in this update, or saved / restored
K == Cases[c]
E == K.ev[l]
Mod(x, y) == x - y * (x \div y)
Probes == 1..(K.nodes + K.outs)
LossAt(id, o) == K.table[1 + Mod((id + 1000 * o) * 7 + ver * 13, Len(K.table))]
RECURSIVE LossFrom(_, _)
LossFrom(id, o) == IF o = K.outs THEN 0 ELSE LET x == LossAt(id, o) y == LossFrom(id, o + 1) IN IF x < 0 \/ y < 0 THEN -1 ELSE x + y
Abs(x) == IF x < 0 THEN -x ELSE x
\* x thousandths stand for num/den
Near(x, num, den) == Abs(x) < 1000000 /\ Abs(x * den - 1000 * num) <= 2 * den
S == cfg
Train1 == E.e = "train" /\ StartTraining([batch |-> E.batch, best |-> E.best, n |-> E.n, nt |-> E.nt]) /\ UNCHANGED upd
RecT == E.e = "rec" /\ E.t /\ upd = {} /\ Learn(E.id, LossFrom(E.id, 0)) /\ UNCHANGED upd
RecS == E.e = "rec" /\ ~E.t /\ upd = {} /\ TestOn(E.id - 100, LossFrom(E.id, 0)) /\ UNCHANGED upd
ApplyEv == /\ E.e = "apply" /\ ph = "train" /\ MustUpdate /\ E.n \in Probes \ upd
           /\ IF upd \cup {E.n} = Probes THEN UpdateNet /\ upd' = {} ELSE UNCHANGED tvars /\ upd' = upd \cup {E.n}
KeepEv == E.e \in {"save", "load"} /\ upd = {} /\ UNCHANGED <<tvars, upd>>
EpochEv == /\ E.e = "epoch" /\ upd = {} /\ EndEpoch(K.outs) /\ E.k = Len(hist) + 1
           /\ LET j == Judged(K.outs) IN Near(E.loss, j.num, j.den) = TRUE
           /\ UNCHANGED upd
Same(s) == \A i \in 1..Len(s) : s[i] = s[1]
LowTrain == CHOOSE m \in {hist[i].tnum : i \in 1..Len(hist)} : \A i \in 1..Len(hist) : m <= hist[i].tnum
TDen == K.outs * cfg.n
Reported == /\ Near(E.firstTrain, hist[1].tnum, TDen) /\ Near(E.bestTrain, LowTrain, TDen)
            /\ E.records = cfg.n /\ E.bsize = cfg.batch
            /\ (LowTrain < hist[1].tnum => E.trained)
            /\ ((\A i \in 2..Len(hist) : hist[i].tnum > hist[1].tnum) => ~E.trained)
            /\ (cfg.best => Near(E.final, Lowest, hist[1].den))
Clean == E.left = K.files
TrainedEv == /\ E.e = "trained" /\ upd = {} /\ Clean = TRUE
             /\ \/ ~E.threw /\ Len(E.ver) = Cardinality(Probes) /\ Same(E.ver) /\ Finish(E.ver[1]) /\ (Reported = TRUE)
                \/ E.threw /\ Fail
                \/ E.threw /\ ph = "idle" /\ ~Usable(cfg) /\ hist = <<>> /\ UNCHANGED tvars
             /\ UNCHANGED upd
Step == Train1 \/ RecT \/ RecS \/ ApplyEv \/ KeepEv \/ EpochEv \/ TrainedEv
AccOf == \* accuracy: recs is a sequence of [g, x], each a sequence of heads, each a sequence of eighths
    LET m == IF K.limit < 0 \/ K.limit > Len(K.recs) THEN Len(K.recs) ELSE K.limit
        Round(a) == IF a >= 0 THEN (a + 4) \div 8 ELSE -((4 - a) \div 8)
        FirstMax(s) == CHOOSE i \in 1..Len(s) : (\A j \in 1..Len(s) : s[j] <= s[i]) /\ \A j \in 1..(i - 1) : s[j] < s[i]
        Right(q) == \A h \in 1..Len(q.g) : IF K.how = "bin" THEN \A w \in 1..Len(q.g[h]) : Round(q.g[h][w]) = Round(q.x[h][w])
                                           ELSE FirstMax(q.g[h]) = FirstMax(q.x[h])
    IN [ok |-> Cardinality({i \in 1..m : Right(K.recs[i])}), of |-> m]
Accuracy == E.e = "acc" /\ ~E.threw /\ (LET a == AccOf IN Abs(E.r * a.of - 100000 * a.ok) <= 2 * a.of)
Step2 == IF K.kind = "acc" THEN (Accuracy = TRUE) /\ UNCHANGED <<tvars, upd>> ELSE Step
More == ~bad /\ l <= Len(K.ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ upd = {} /\ TInit
Next == \/ More /\ Step2 /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step2 /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, upd, tvars>>
Spec == Init /\ [][Next]_<<c, l, bad, upd, tvars>>
====
