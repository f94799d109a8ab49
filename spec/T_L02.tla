---- MODULE T_L02 ----
EXTENDS Grammar, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
Same(x, y) == /\ x.k = y.k
              /\ y.seen => x.a = y.a /\ x.cols = y.cols /\ x.ins = {y.ins[i] : i \in 1..Len(y.ins)}
ParseOk(e) == LET x == TLCEval(Script(e.text)) IN
    /\ ~e.threw
    /\ x.st = "no" => ~e.ok /\ e.said
    /\ x.st = "ok" => e.ok /\ (e.listed => Len(e.stmts) = Len(x.v) /\ \A i \in 1..Len(x.v) : Same(x.v[i], e.stmts[i]))
    /\ x.st = "open" => (~e.ok => e.said)
Step == E.e = "parse" /\ ParseOk(E) = TRUE
More == ~bad /\ l <= Len(Cases[c].ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l, bad>>
====
