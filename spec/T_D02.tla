---- MODULE T_D02 ----
EXTENDS DelimText, IOUtils, Json, TLC
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, file
E == Cases[c].ev[l]
Step == \/ E.e = "wrote" /\ file' = [recs |-> E.recs, d |-> E.d]
        \/ E.e = "read" /\ ~E.err /\ E.recs = file.recs /\ UNCHANGED file
        \/ /\ E.e = "hand" /\ UNCHANGED file
           /\ LET t == IF E.skip THEN SkipOne(E.text) ELSE E.text
              IN E.recs = Records(t, E.d) /\ E.err = Unclosed(t, E.d)
        \/ E.e = "dir" /\ LinesOfDir(E.files, E.skip, E.lines) /\ UNCHANGED file
        \/ E.e = "done" /\ UNCHANGED file
More == ~bad /\ l <= Len(Cases[c].ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ file = [recs |-> <<>>, d |-> 0]
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<file, c, l>>
Spec == Init /\ [][Next]_<<c, l, bad, file>>
====
