---- MODULE T_D06 ----
EXTENDS DatasetIter, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, pred  \* pred: size -> what a predictable first shuffle yields
E == Cases[c].ev[l]
Step == \/ E.e = "open" /\ OpenDs(E.d, E.part, E.n, E.cnt, E.comp, E.mem) /\ E.shapes /\ UNCHANGED pred
        \/ E.e = "add" /\ AddRecord(E.d, E.ok) /\ UNCHANGED pred
        \/ E.e = "newsh" /\ NewShuffler(E.s, E.n) /\ E.perm = [i \in 1..E.n |-> i - 1] /\ UNCHANGED pred
        \/ E.e = "shuffle" /\ Shuffle(E.s, E.perm) /\ UNCHANGED pred
        \/ /\ E.e = "predictable" /\ Shuffle(E.s, E.perm)
           /\ LET k == shs[E.s] IN (k \in DOMAIN pred => pred[k] = E.perm) /\ pred' = Put(pred, k, E.perm)
        \/ E.e = "attach" /\ Attach(E.d, E.s, E.ok) /\ UNCHANGED pred
        \* a record is its given and expected values: both must come from the same row
        \/ E.e = "next" /\ E.row = E.row2 /\ Next1(E.d, E.row) /\ UNCHANGED pred
        \/ E.e = "restart" /\ Restart(E.d) /\ UNCHANGED pred
        \/ E.e = "count" /\ Count(E.d, E.n) /\ UNCHANGED pred
        \/ E.e = "done" /\ UNCHANGED <<ivars, pred>>
More == ~bad /\ l <= Len(Cases[c].ev)
Init == IInit /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ pred = <<>>
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<ivars, c, l, pred>>
Spec == Init /\ [][Next]_<<ivars, c, l, bad, pred>>
====
