---- MODULE T_D07 ----
EXTENDS Dataset, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Abs(a[i] - b[i]) <= 1
\* the values supplied, as the column's own kind of value
Words(m, ws) == IF m.purpose = "L" THEN ws ELSE [k \in 1..Len(ws) |-> Milli(ws[k])]
EncodeOk(e, m, old) ==
    LET n == m.shape[1] * m.shape[2] * m.shape[3]
        enough == IF m.purpose = "L" THEN Len(e.words) = m.shape[1] /\ \A k \in 1..Len(e.words) : e.words[k] \in RangeOf(m.labels)
                  ELSE Len(e.words) = n /\ \A k \in 1..n : ValidNum(e.words[k]) /\ e.words[k] # <<>>
    IN IF ~enough THEN ~e.ok
       ELSE /\ e.ok /\ e.shape = m.shape
            /\ m.min = m.max \/ Decoded(m, e.cell) = Words(m, e.words)
            \* the stored row that came from the same values holds the very same elements
            /\ \A r \in 1..Len(old) : Decoded(m, old[r]) = Words(m, e.words) => Near(e.vals, e.stored[r])
Step == \/ E.e = "create" /\ E.ok /\ E.stored /\ UNCHANGED db
        \/ E.e = "show" /\ db' = Put(db, E.name, [st |-> E.st, decls |-> <<>>, rows |-> <<>>])
        \/ /\ E.e = "encode"
           /\ LET st == db[E.name].st
              IN EncodeOk(E, st.given[E.col], [r \in 1..Len(st.rows) |-> st.rows[r].g[E.col]]) = TRUE
           /\ UNCHANGED db
        \/ E.e = "done" /\ UNCHANGED db
More == ~bad /\ l <= Len(Cases[c].ev)
Init == DInit /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<db, c, l>>
Spec == Init /\ [][Next]_<<db, c, l, bad>>
====
