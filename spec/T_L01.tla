---- MODULE T_L01 ----
EXTENDS Lexer, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
LexOk(e) == LET x == TLCEval(Lex(e.text)) IN
    IF ~x.ok THEN ~e.ok /\ e.said
    ELSE /\ e.ok /\ Len(e.toks) = Len(x.toks)
         /\ \A i \in 1..Len(x.toks) : /\ e.toks[i].label = x.toks[i].label /\ e.toks[i].off = x.toks[i].off
                                      /\ e.toks[i].text = x.toks[i].text /\ e.toks[i].src = e.src
Step == E.e = "lex" /\ LexOk(E) = TRUE
More == ~bad /\ l <= Len(Cases[c].ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l, bad>>
====
