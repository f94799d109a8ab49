---- MODULE T_D04 ----
EXTENDS BinaryFile, IOUtils, Json, TLC
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
Len0(s) == Len(s)

\* field numbers of a column description: purpose, rows, columns, channels
Brief(m) == [p |-> m.f[1], d |-> <<m.f[2], m.f[3], m.f[4]>>, name |-> m.name, labels |-> m.labels]
Briefs(ms) == [i \in 1..Len(ms) |-> Brief(ms[i])]

Step == \/ E.e = "open" /\ Open(<<E.g, E.x>>, E.cap)
        \/ E.e = "write" /\ Write(E.g, E.x, E.kept)
        \/ E.e = "reopen" /\ Reopen(<<E.g, E.x>>, E.n)
        \/ E.e = "describe" /\ phase = "reading" /\ E.g = Briefs(hdr[1]) /\ E.x = Briefs(hdr[2]) /\ UNCHANGED bvars
        \/ E.e = "read" /\ Read(E.i, E.ok, E.g, E.x)
        \/ E.e = "done" /\ Finish
More == ~bad /\ l <= Len(Cases[c].ev)
Init == BInit /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<bvars, c, l>>
Spec == Init /\ [][Next]_<<bvars, c, l, bad>>
====
