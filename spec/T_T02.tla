---- MODULE T_T02 ----
EXTENDS SmallFloat, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
CodesOk(e) == \A q \in QNumbers \cup {120, 248, 255} : QMeans(q, e.b, e.f[q + 1]) /\ e.back[q + 1] = q
\* also order: among converted floats a larger one never gets a smaller number
ConvOk(e) == LET S == TLCEval(QKeys(e.b)) N == {i \in 1..Len(e.x) : ~IsNaN(e.x[i]) /\ ~IsInf(e.x[i])} IN
    /\ \A i \in 1..Len(e.x) : QOk(e.x[i], e.b, e.q[i], S)
    /\ \A i \in N : LET r == QKey(e.q[i], e.b) x == Key(e.x[i]) IN (x >= 0 => r >= 0) /\ (x <= 0 => r <= 0)
    /\ \A i, j \in N : Key(e.x[i]) <= Key(e.x[j]) => QKey(e.q[i], e.b) <= QKey(e.q[j], e.b)
HalvesOk(e) == \A i \in 1..Len(e.f) : LET h == e.lo + i - 1 IN
    HMeans(h, e.f[i]) /\ (IF IsNaN(e.f[i]) THEN HBits(e.back[i]) > InfBits ELSE e.back[i] = h)
HConvOk(e) == LET N == {i \in 1..Len(e.x) : ~IsNaN(e.x[i])} IN
    /\ \A i \in 1..Len(e.x) : HOk(e.x[i], e.q[i])
    /\ \A i, j \in N : Key(e.x[i]) <= Key(e.x[j]) => Key([s |-> HSign(e.q[i]), m |-> HBits(e.q[i])]) <= Key([s |-> HSign(e.q[j]), m |-> HBits(e.q[j])])
Step == \/ E.e = "codes" /\ CodesOk(E) = TRUE
        \/ E.e = "conv" /\ ConvOk(E) = TRUE
        \/ E.e = "halves" /\ HalvesOk(E) = TRUE
        \/ E.e = "hconv" /\ HConvOk(E) = TRUE
More == ~bad /\ l <= Len(Cases[c].ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l>>
Spec == Init /\ [][Next]_<<c, l, bad>>
====
