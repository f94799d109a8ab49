---- MODULE MC_FileSort ----
EXTENDS FileSort
CONSTANT N
Lns == {<<>>, <<1>>, <<1, 1>>, <<2>>}
Inputs == UNION {[1..n -> Lns] : n \in 0..N}
Init == \E ls \in Inputs, h \in BOOLEAN, d \in BOOLEAN, k \in 1..3 : SInit(ls, h, d, k)
Spec == Init /\ [][SNext]_svars
====
