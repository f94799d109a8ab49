---- MODULE T_N01 ----
(* A recorded run: facts; ask/answer around a prediction; train .. trained around a training.  *)
(* Values are recorded in hundredths.                                                          *)
EXTENDS Network, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, asked, lossn, count, seen
E == Cases[c].ev[l]
G == [n |-> Cases[c].n, edges |-> Cases[c].edges, heads |-> Cases[c].heads, outs |-> Cases[c].outs, clip |-> SetOf(Cases[c].clip)]
RECURSIVE SumTo(_)
SumTo(n) == IF n = 0 THEN 0 ELSE n + SumTo(n - 1)
Facts == E.e = "facts" /\ E.params = SumTo(G.n) /\ E.trainable = Cardinality({v \in Nodes(G) : Mod(v, 2) = 1}) /\ UNCHANGED <<nvars, asked, lossn, count, seen>>
Hundred(s) == [k \in 1..Len(s) |-> 100 * s[k]]
Ask == E.e = "ask" /\ asked = "no" /\ asked' = "asked" /\ Begin(G, E.in) /\ UNCHANGED <<lossn, count, seen>>
Told == E.e = "answer" /\ asked = "asked" /\ ~E.threw /\ AllDone(G) /\ E.y = Hundred(Answer(G)) /\ Deliver(G) /\ asked' = "no" /\ UNCHANGED <<lossn, count, seen>>
\* when training, the next pass begins silently with some record
Records == Cases[c].recs
StartRec(r) == Begin(G, Records[r].g)
\* the record an input node's value belongs to (records differ in every value)
IsOf(r) == \E k \in 1..Len(G.heads) : G.heads[k] = E.n /\ E.in = <<100 * Records[r].g[k]>>
FireEv == /\ E.e = "fwd" /\ E.t = (asked = "train") /\ E.n \in Nodes(G)
          /\ CanFire(G, E.n) /\ E.in = Hundred(Gets(G, E.n)) /\ Fire(G, E.n) /\ UNCHANGED <<asked, lossn, count, seen>>
Train == E.e = "train" /\ asked = "no" /\ phase = "idle" /\ asked' = "train" /\ lossn' = 0 /\ count' = 0 /\ seen' = {} /\ UNCHANGED nvars
Cur == CHOOSE r \in 1..Len(Records) : Records[r].g = inp
Loss == /\ E.e = "loss" /\ asked = "train" /\ Len(truth) < Len(G.outs)
        /\ LET k == Len(truth) + 1 IN E.truth = 100 * Records[Cur].x[k] /\ E.pred = 100 * res[G.outs[k]] /\ Judge(G, Records[Cur].x[k])
        /\ UNCHANGED <<asked, lossn, count, seen>>
Bwd == /\ E.e = "bwd" /\ asked = "train" /\ CanReturn(G, E.n) /\ E.err = 100 * Received(G, E.n) /\ Return(G, E.n) /\ UNCHANGED <<asked, lossn, count, seen>>
BatchFull == count + 1 = Cases[c].batch \/ Cardinality(seen) = Len(Records)
App == /\ E.e = "apply" /\ asked = "train" /\ (phase = "backward" => BatchFull) /\ Update(G, E.n)
       /\ count' = (IF phase = "backward" THEN -1 ELSE count) /\ UNCHANGED <<asked, lossn, seen>>
Epoch == E.e = "epoch" /\ asked = "train" /\ phase = "idle" /\ count = 0 /\ Cardinality(seen) = Len(Records) /\ seen' = {} /\ UNCHANGED <<nvars, asked, lossn, count>>
Trained == E.e = "trained" /\ ~E.threw /\ asked = "train" /\ phase = "idle" /\ count = 0 /\ seen = {} /\ asked' = "no" /\ UNCHANGED <<nvars, lossn, count, seen>>
\* silent steps between records: finish the previous record (or the updates), begin the next one
Silent == /\ asked = "train"
          /\ \/ phase = "idle" /\ E.e = "fwd" /\ (\E r \in (1..Len(Records)) \ seen : IsOf(r) /\ StartRec(r) /\ seen' = seen \cup {r}) /\ UNCHANGED count
             \/ Settle(G) /\ E.e # "apply" /\ ~BatchFull /\ count' = count + 1 /\ UNCHANGED seen
             \/ Updated(G) /\ count' = 0 /\ UNCHANGED seen
          /\ UNCHANGED <<asked, lossn>>
Step == Facts \/ Ask \/ Told \/ FireEv \/ Train \/ Loss \/ Bwd \/ App \/ Epoch \/ Trained
More == ~bad /\ l <= Len(Cases[c].ev)
tv == <<c, l, bad, asked, lossn, count, seen, nvars>>
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ asked = "no" /\ lossn = 0 /\ count = 0 /\ seen = {} /\ NInit
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ Silent /\ UNCHANGED <<c, l, bad>>
        \/ More /\ ~ENABLED Step /\ ~ENABLED Silent /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, asked, lossn, count, seen, nvars>>
Spec == Init /\ [][Next]_tv
====
