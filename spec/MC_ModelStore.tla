--------------------------- MODULE MC_ModelStore ---------------------------
EXTENDS ModelStore
CONSTANTS MaxSteps, MaxLayers
VARIABLES step, last   \* last: model -> knowledge it was last saved with as a whole; <<model, label>> alike
Ids == {1, 2}
Names == {"a", "b"}
Labels == {"default", "x"}
Fresh == {"a", "b", "c"}
Init == SInit /\ step = 0 /\ last = <<>>
Tick == step < MaxSteps /\ step' = step + 1
DoBuild == Tick /\ \E i \in Ids, m \in Names : i \notin DOMAIN nets /\ Build(i, step, m) /\ UNCHANGED last
DoTrain == Tick /\ \E i \in DOMAIN nets : Train(i, 7) /\ UNCHANGED last
DoSave == Tick /\ \E i \in DOMAIN nets, m \in Names, o \in BOOLEAN, into \in Fresh :
            SaveModel(i, m, o, into) /\ last' = Put(Without(last, {x \in DOMAIN last : x[1] = into}), <<into, "default">>, nets[i].k)
DoKeep == Tick /\ \E i \in DOMAIN nets, l \in Labels, o \in BOOLEAN, into \in {"default", "x", "y"} :
            KeepKnowledge(i, l, o, into) /\ last' = Put(last, <<nets[i].m, into>>, nets[i].k)
DoRestore == Tick /\ \E i \in DOMAIN nets, l \in Labels : Restore(i, l) /\ UNCHANGED last
DoForget == Tick /\ \E i \in DOMAIN nets, l \in {"x"} : Forget(i, l) /\ last' = Without(last, {<<nets[i].m, l>>})
DoLoad == Tick /\ \E i \in Ids, m \in Fresh : Load(i, m) /\ UNCHANGED last
Next == DoBuild \/ DoTrain \/ DoSave \/ DoKeep \/ DoRestore \/ DoForget \/ DoLoad
Spec == Init /\ [][Next]_<<svars, step, last>>
\* what is stored under a label is what was last put there, whatever else was done
Kept == \A x \in DOMAIN disk : x[2] # "" => (x \in DOMAIN last /\ disk[x] = last[x])
\* saving without permission to overwrite never changes what is there
Same == \A x \in DOMAIN disk : x \in DOMAIN disk' /\ disk'[x] = disk[x]
Allowed == \/ \E i \in DOMAIN nets, m \in Names : SaveModel(i, m, TRUE, m)
           \/ \E i \in DOMAIN nets, l \in Labels : KeepKnowledge(i, l, TRUE, l)
           \/ \E i \in DOMAIN nets, l \in Labels : Forget(i, l)
NoLoss == [][Same \/ Allowed]_<<svars, step, last>>
\* every network in memory knows something that came from a network built here
Known == \A i \in DOMAIN nets : nets[i].k[1] < MaxSteps
-----------------------------------------------------------------------------
SeqsUpTo(S, n) == UNION {[1..m -> S] : m \in 0..n}
RECURSIVE Programs(_)
Programs(n) == IF n = 0 THEN {<<>>}
               ELSE UNION {{Append(p, q) : q \in SeqsUpTo(1..(n - 1), 2)} : p \in Programs(n - 1)}
ASSUME \A n \in 1..MaxLayers : \A p \in Programs(n) : ReadBack(Written(p)) = p
=============================================================================
