---------------------------- MODULE MC_BytePair ----------------------------
\* an encoder learns any pairs that occur in what it encodes, and is saved and loaded: every token of up to 4 symbols decodes back
EXTENDS BytePair
Symbols == {1, 2}
Delim == <<3>>
Tokens == UNION {[1..n -> Symbols] : n \in 0..4}
Slots == {1}
VARIABLES mem, disk
vars == <<mem, disk>>
NoModel == <<[p |-> <<0>>, c |-> <<0>>]>>
Next3(codes) == 4 + Len(codes)
Learn(s) == Len(mem[s]) < 3 /\ \E t \in Tokens : LET x == Encode(t, mem[s], Delim) IN
                \E i \in 1..(Len(x) - 1) : mem' = [mem EXCEPT ![s] = Append(@, [p |-> <<x[i], x[i + 1]>>, c |-> <<Next3(mem[s])>>])] /\ UNCHANGED disk
Save(s) == disk' = mem[s] /\ UNCHANGED mem
Load(s) == disk # NoModel /\ mem' = [mem EXCEPT ![s] = disk] /\ UNCHANGED disk
Init == mem = [s \in Slots |-> <<>>] /\ disk = NoModel
Next == \E s \in Slots : Learn(s) \/ Save(s) \/ Load(s)
Spec == Init /\ [][Next]_vars
UsableModels == \A s \in Slots : Usable(mem[s], Delim, Symbols)
Lossless == \A s \in Slots : \A t \in Tokens : Decode(Encode(t, mem[s], Delim), mem[s], Delim) = t
Shorter == \A s \in Slots : \A t \in Tokens : Len(Encode(t, mem[s], Delim)) <= Len(t) + 2
=============================================================================
