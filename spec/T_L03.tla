---- MODULE T_L03 ----
EXTENDS Session, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
\* what was run: ops[l] = [how, blocks, tree]
O == Cases[c].ops[l]
BlockOk(e, o) == LET x == TLCEval(RunAll(o.tree, 1)) IN
    /\ e.log = x.log
    /\ e.res = (IF x.r = "throw" THEN "threw" ELSE x.r)
    /\ x.r \in {"fail", "throw"} => e.msg = "stub " \o ToString(x.log[Len(x.log)])
SessionOk(e, o) == LET x == TLCEval(RunBlocks(o.blocks)) IN
    /\ ~e.threw
    /\ e.marks = x.marks
    /\ o.how # "cli" => e.done = x.done
    /\ (\E i \in 1..Len(o.blocks) : ~o.blocks[i].parses) /\ x.marks = <<>> => e.said       \* a failure is reported
    /\ o.how = "nofile" => e.said
Step == \/ E.e = "block" /\ BlockOk(E, O) = TRUE
        \/ E.e = "session" /\ E.how = O.how /\ SessionOk(E, O) = TRUE
More == ~bad /\ l <= Len(Cases[c].ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l, bad>>
====
