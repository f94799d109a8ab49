---- MODULE T_D01 ----
EXTENDS Dataset, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, pend
E == Cases[c].ev[l]
Src == [supported |-> E.src.supported, exists |-> E.src.exists, rows |-> E.src.rows]
None == [name |-> ""]
Names == {E.names[i] : i \in 1..Len(E.names)}
\* a create event that leaves a new dataset is followed by its contents
Step == \/ /\ E.e = "create" /\ pend = None
           /\ E.changed = <<>>
           /\ IF E.name \in DOMAIN db
              THEN /\ E.stored /\ Names = DOMAIN db /\ UNCHANGED <<db, pend>>
              ELSE IF Usable(E.decls, Src)
              THEN /\ E.ok /\ ~E.threw /\ E.stored /\ E.extra = <<>> /\ Len(E.inside) = 1
                   /\ Names = DOMAIN db \cup {E.name}
                   /\ pend' = [name |-> E.name, decls |-> E.decls, src |-> Src] /\ UNCHANGED db
              ELSE /\ ~E.ok /\ ~E.stored /\ Names = DOMAIN db /\ CreateRefused(E.name, E.decls, Src) /\ UNCHANGED pend
        \/ /\ E.e = "show" /\ pend # None
           /\ CreateOk(E.name, pend.decls, pend.src, E.st) /\ E.name = pend.name /\ pend' = None
        \/ E.e = "show" /\ pend = None /\ Same(E.name, E.st) /\ UNCHANGED pend
        \/ E.e = "done" /\ pend = None /\ UNCHANGED <<db, pend>>
More == ~bad /\ l <= Len(Cases[c].ev)
Init == DInit /\ pend = None /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<db, c, l, pend>>
Spec == Init /\ [][Next]_<<db, c, l, bad, pend>>
====
