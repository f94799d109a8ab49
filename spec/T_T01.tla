---- MODULE T_T01 ----
EXTENDS Tensor, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, st
E == Cases[c].ev[l]
T(e) == [r |-> e.sh[1], c |-> e.sh[2], k |-> e.sh[3], v |-> e.v]
None == [r |-> 0, c |-> 0, k |-> 0, v |-> <<>>]
Opd(i) == IF i = 0 THEN None ELSE st[i]
\* these make tensors of their own; every other operation is a view that contains its operands
Copies == {"copy32", "copy16", "copy8", "pixel", "load32", "load16", "load8", "loadpixel", "inverse", "matdiv"}
\* every accessor of one tensor agrees with its elements
Seen(e) == /\ e.sh[4] = e.sh[1] * e.sh[2] * e.sh[3] /\ e.sh[5] = e.sh[1] * e.sh[2] /\ e.shape = <<e.sh[1], e.sh[2], e.sh[3]>>
           /\ Len(e.v) = e.sh[4] /\ e.off = e.v
StepOk(e) == LET a == Opd(e.a) b == Opd(e.b) d == Opd(e.d) IN
    IF ~Applies(e.op, a, b, d, e.p) THEN e.err = TRUE
    ELSE /\ e.err = FALSE
         /\ Seen(e)
         /\ Right(e.op, a, b, d, e.p, e.exact, T(e))
         /\ e.again = e.v
         /\ e.op \notin Copies => \A i \in 1..Len(e.has) : e.has[i] = TRUE
         /\ e.other = FALSE
         /\ StatsOk(T(e), e, e.fine, e.small)
\* using a tensor in later operations leaves it as it was
KeepOk(e) == \A i \in 1..Len(e.all) : e.all[i] = st[i].v
Ok(e) == CASE e.e = "op" -> StepOk(e) [] e.e = "end" -> KeepOk(e) [] OTHER -> FALSE
Step == Ok(E) = TRUE
More == ~bad /\ l <= Len(Cases[c].ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ st = <<>>
Next == \/ /\ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
           /\ st' = IF E.e # "op" THEN st ELSE Append(st, IF E.err THEN None ELSE T(E))
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, st>>
Spec == Init /\ [][Next]_<<c, l, bad, st>>
====
