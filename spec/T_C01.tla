---- MODULE T_C01 ----
(* every point at which the real process was ended, and what a fresh process found there *)
EXTENDS Dataset, Outcomes, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad,
          whole,    \* the complete dataset, once seen
          was       \* it was there before it was tried again
K == Cases[c]
E == K.ev[l]
F == E.found
Y == K.ev[1].y
Prior == IF K.ev[1].before THEN 1 ELSE 0
Interrupted == E.e = "crash" /\ E.died
Settled == E.looked /\ ~E.broke /\ (E.e = "again" => ~E.died)
\* models, knowledge, encoders
May == Finds(Prior, 2, K.ev[1].ow, Interrupted)
Found == \/ ~F.loaded /\ 0 \in May
         \/ F.loaded /\ \E v \in May \ {0} : F.y = Y[v]
Names == {F.side[i] : i \in 1..Len(F.side)}
Tidy == E.e = "again" /\ K.ev[1].ow => Names = IF K.ev[1].what = "keep" THEN {"default", "k", "model.config"} ELSE {"net"}
ModelOk == IF E.e = "versions" THEN l = 1 ELSE Settled /\ Found /\ Tidy
\* datasets
Complete(st) == IF whole # <<>> THEN st = whole[1] ELSE Usable(K.decls, K.src) /\ Holds(st, K.decls, DataRows(K.decls, K.src.rows)) /\ ScalingOk(st)
DataOk == /\ Settled /\ F.changed = <<>>
          /\ (F.stored => F.readable /\ Complete(F.st))
          /\ (~Interrupted => F.stored)
          /\ (E.e = "again" /\ ~was => F.extra = <<>>)
\* tasks: one prediction (under two lines of headings) per record, or a report that there is nothing to execute; trying again makes it
TaskOk == IF E.e = "task" THEN l = 1
          ELSE /\ Settled /\ ~F.threw
               /\ (F.ok => F.there /\ F.lines = K.ev[1].rows + 2)
               /\ (~Interrupted => F.ok)
Ok == IF K.kind = "model" THEN ModelOk ELSE IF K.kind = "task" THEN TaskOk ELSE DataOk
Step == /\ Ok = TRUE
        /\ whole' = (IF K.kind = "data" /\ F.stored THEN <<F.st>> ELSE whole)
        /\ was' = (IF K.kind = "data" THEN F.stored ELSE was)
More == ~bad /\ l <= Len(K.ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ whole = <<>> /\ was = FALSE /\ db = <<>>
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad, db>>
        \/ More /\ ~(Ok = TRUE) /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, whole, was, db>>
Spec == Init /\ [][Next]_<<c, l, bad, whole, was, db>>
====
