---- MODULE T_N04 ----
EXTENDS ModelStore, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad,
          shown,   \* knowledge -> what a network with it answers
          digs     \* <<model, label>> -> digest of the stored files
K == Cases[c]
E == K.ev[l]
\* <<model, label>> -> digest, as listed by the event
Listed == TLCEval([x \in {<<E.disk[n].m, E.disk[n].l>> : n \in 1..Len(E.disk)} |->
                     LET n == CHOOSE n \in 1..Len(E.disk) : E.disk[n].m = x[1] /\ E.disk[n].l = x[2] IN E.disk[n].d])
New == DOMAIN Listed \ DOMAIN digs
Gone == DOMAIN digs \ DOMAIN Listed
Unchanged(S) == \A x \in S : x \in DOMAIN Listed /\ Listed[x] = digs[x]
NothingStored == Listed = digs
\* where a new model / a new label went, if anything new appeared
NewModel == (CHOOSE x \in New : TRUE)[1]
NewLabel == (CHOOSE x \in New : TRUE)[2]
Origin == l
Name == "net"
BuildEv == E.e = "build" /\ ~E.threw /\ Build(E.i, Origin, Name) /\ (NothingStored = TRUE)
\* a training may give up because it does not converge: what it leaves behind is new knowledge that nothing else has
Unknown == <<-3, l>>
TrainEv == /\ E.e = "train" /\ E.i \in DOMAIN nets /\ (NothingStored = TRUE)
           /\ IF E.threw THEN nets' = [nets EXCEPT ![E.i] = [k |-> Unknown, h |-> Unknown, m |-> @.m]] /\ UNCHANGED disk
              ELSE Train(E.i, E.d)
SaveAt(m) == LET into == IF OfModel(m) = {} \/ E.ow THEN m ELSE IF New = {} THEN m ELSE NewModel IN
             /\ SaveModel(E.i, m, E.ow, into)
             /\ (Unchanged({x \in DOMAIN digs : x[1] # into}) = TRUE) /\ (DOMAIN Listed = DOMAIN disk') = TRUE
SaveEv == E.e \in {"save", "saveas"} /\ ~E.threw /\ E.i \in DOMAIN nets /\ SaveAt(IF E.e = "save" THEN nets[E.i].m ELSE E.p)
KeepEv == /\ E.e = "keep" /\ ~E.threw /\ E.i \in DOMAIN nets
          /\ LET m == nets[E.i].m
                 into == IF <<m, E.l>> \notin DOMAIN disk \/ E.ow THEN E.l ELSE IF New = {} THEN "" ELSE NewLabel
             IN KeepKnowledge(E.i, E.l, E.ow, into) /\ (Unchanged(DOMAIN digs \ {<<m, into>>}) = TRUE)
          /\ (DOMAIN Listed = DOMAIN disk') = TRUE
RestoreEv == /\ E.e = "restore" /\ E.i \in DOMAIN nets /\ (NothingStored = TRUE)
             /\ IF CanRestore(E.i, E.l) THEN ~E.threw /\ Restore(E.i, E.l) ELSE E.threw /\ Refused
ForgetEv == E.e = "forget" /\ ~E.threw /\ E.i \in DOMAIN nets /\ Forget(E.i, E.l) /\ (Unchanged(DOMAIN digs \ {<<nets[E.i].m, E.l>>}) = TRUE) /\ (DOMAIN Listed = DOMAIN disk') = TRUE
LoadEv == /\ E.e = "load" /\ (NothingStored = TRUE)
          /\ IF CanLoad(E.p) THEN ~E.threw /\ Load(E.i, E.p) ELSE E.threw /\ Refused
Answered == IF E.i \notin DOMAIN nets' THEN E.y = <<>>
            ELSE LET k == nets'[E.i].k IN
                 /\ Len(E.y) = 4 /\ E.y[1] = 2 * K.outs /\ E.y[3] = K.params /\ E.y[4] = K.trainable
                 /\ (k \in DOMAIN shown => shown[k] = E.y)
Answers == (Answered = TRUE) /\ shown' = IF E.i \in DOMAIN nets' THEN Put(shown, nets'[E.i].k, E.y) ELSE shown
\* same knowledge, same files
SameFiles == \A x, y \in DOMAIN disk' : (disk'[x] = disk'[y] /\ (x[2] = "") = (y[2] = "")) => Listed[x] = Listed[y]
Stored == digs' = Listed /\ (SameFiles = TRUE)
Step == (BuildEv \/ TrainEv \/ SaveEv \/ KeepEv \/ RestoreEv \/ ForgetEv \/ LoadEv) /\ Answers /\ Stored
More == ~bad /\ l <= Len(K.ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ SInit /\ shown = <<>> /\ digs = <<>>
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, svars, shown, digs>>
Spec == Init /\ [][Next]_<<c, l, bad, svars, shown, digs>>
====
