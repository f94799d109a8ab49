---- MODULE T_D05 ----
EXTENDS Dataset, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
\* under other columns, every number keeps its value, every label its text, and nothing else changes
SameColumn(old, oc, new, nc) ==
    IF old.purpose = "N" THEN [k \in 1..Len(nc) |-> Snap(nc[k])] = Decoded(old, oc)
    ELSE IF old.purpose = "L" THEN Decoded(new, nc) = Decoded(old, oc) ELSE nc = oc
Reopened(st, was, under) ==
    /\ st.given = under.given /\ st.expected = under.expected /\ Len(st.rows) = Len(was.rows)
    /\ \A r \in 1..Len(st.rows) :
         /\ \A i \in 1..Len(st.given) : SameColumn(was.given[i], was.rows[r].g[i], st.given[i], st.rows[r].g[i])
         /\ \A i \in 1..Len(st.expected) : SameColumn(was.expected[i], was.rows[r].x[i], st.expected[i], st.rows[r].x[i])
\* a label that the other columns do not have cannot be read under them
LabelsKnown(old, cells, new) == old.purpose = "L" => \A r \in 1..Len(cells) : RangeOf(Decoded(old, cells[r])) \subseteq RangeOf(new.labels)
Expressible(was, under) ==
    /\ \A i \in 1..Len(was.given) : LabelsKnown(was.given[i], TLCEval([r \in 1..Len(was.rows) |-> was.rows[r].g[i]]), under.given[i])
    /\ \A i \in 1..Len(was.expected) : LabelsKnown(was.expected[i], TLCEval([r \in 1..Len(was.rows) |-> was.rows[r].x[i]]), under.expected[i])
Step == \/ E.e = "create" /\ E.ok /\ E.stored /\ UNCHANGED db
        \/ /\ E.e = "show" /\ E.name \notin DOMAIN db /\ (ScalingOk(E.st) /\ DecodersAgree(E.st)) = TRUE
           /\ db' = Put(db, E.name, [st |-> E.st, decls |-> <<>>, rows |-> <<>>])
        \/ E.e = "show" /\ Same(E.name, E.st)
        \/ E.e = "reopen" /\ Expressible(db[E.name].st, db[E.under].st) = TRUE /\ E.ok /\ Reopened(E.st, db[E.name].st, db[E.under].st) = TRUE /\ UNCHANGED db
        \/ E.e = "reopen" /\ Expressible(db[E.name].st, db[E.under].st) = FALSE /\ ~E.ok /\ UNCHANGED db
        \/ E.e = "done" /\ UNCHANGED db
More == ~bad /\ l <= Len(Cases[c].ev)
Init == DInit /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<db, c, l>>
Spec == Init /\ [][Next]_<<db, c, l, bad>>
====
