---- MODULE T_D03 ----
EXTENDS FileSort, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, dir, pend
E == Cases[c].ev[l]
\* dir: the directory as a set of <<name, content>>
AsDir(fs) == {fs[i] : i \in 1..Len(fs)}
Step == \/ E.e = "before" /\ dir' = AsDir(E.files) /\ pend' = <<>>
        \/ /\ E.e = "sort" /\ E.ok
           /\ <<E.name, E.src>> \in dir
           /\ Lines(E.out) = Result(Lines(E.src), E.hdr, E.dup) /\ E.out = Unlines(Lines(E.out))
           /\ pend' = <<E.outname, E.out>>
           /\ dir' = dir
        \/ /\ E.e = "missing" /\ ~E.ok /\ UNCHANGED <<dir, pend>>
        \/ /\ E.e = "after"
           /\ AsDir(E.files) = {f \in dir : f[1] # pend[1]} \cup {pend}
           /\ UNCHANGED <<dir, pend>>
        \/ E.e = "done" /\ UNCHANGED <<dir, pend>>
More == ~bad /\ l <= Len(Cases[c].ev)
Init == SInit(<<>>, FALSE, FALSE, 1) /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ dir = {} /\ pend = <<>>
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<svars, c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<svars, c, l, dir, pend>>
Spec == Init /\ [][Next]_<<svars, c, l, bad, dir, pend>>
====
