---- MODULE T_N03 ----
EXTENDS ExitStrategy, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, s, stopped, last   \* stopped: a training was told to stop; last: last epoch asked about, -1 outside
K == Cases[c]
M == K.limits
E == K.ev[l]
H == [k |-> E.k, loss |-> E.loss, el |-> E.el]
Say(t) == /\ ~E.threw /\ E.done = Done(M, t, H)
          /\ (E.done => E.why \in Reasons(M, t, H))
          /\ E.lo <= E.el + 1 /\ E.el <= E.hi + 1
Ask == /\ E.e = "ask" /\ (Say(TLCEval(See(M, s, H))) = TRUE) /\ s' = See(M, s, H)
       /\ (K.kind = "limit" => ~stopped /\ E.k = last + 1)
       /\ stopped' = E.done /\ last' = E.k
Start == E.e = "start" /\ s' = Fresh /\ stopped' = FALSE /\ last' = 0
Trained == E.e = "trained" /\ ~E.threw /\ stopped /\ UNCHANGED <<s, stopped, last>>
Noise == E.e \in {"rec", "apply"} /\ ~(stopped /\ K.kind = "limit") /\ UNCHANGED <<s, stopped, last>>
Step == Ask \/ Start \/ Trained \/ Noise
More == ~bad /\ l <= Len(K.ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ s = Fresh /\ stopped = FALSE /\ last = 0
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, s, stopped, last>>
Spec == Init /\ [][Next]_<<c, l, bad, s, stopped, last>>
====
