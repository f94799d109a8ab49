---- MODULE MC_BinaryFile ----
EXTENDS BinaryFile
CONSTANTS MaxRows, Keys, Vals
DoOpen == \E k \in 0..2 : Open(<<"h">>, k)
DoWrite == \E g \in Keys, x \in Vals, b \in BOOLEAN : Len(rows) < MaxRows /\ Write(g, x, b)
DoReopen == Reopen(hdr, Len(rows))
DoRead == \E i \in 0..MaxRows, ok \in BOOLEAN, g \in Keys, x \in Vals : Read(i, ok, g, x)
Next == DoOpen \/ DoWrite \/ DoReopen \/ DoRead \/ Finish
Spec == BInit /\ [][Next]_bvars
====
