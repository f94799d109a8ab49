---- MODULE MC_DatasetIter ----
(* Design check: with a base that respects the split (chosen up front), every interleaving of
   reads, restarts and reshuffles over two complementary parts keeps the properties and a full pass
   between a restart and exhaustion visits each record once. *)
EXTENDS DatasetIter
CONSTANT N
VARIABLES truth, pass   \* truth: the hidden row order; pass: d -> rows seen since restart, mixed: reshuffled meanwhile
vars == <<ds, parts, shs, truth, pass>>
PermsOf(n) == {p \in [1..n -> 0..n-1] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Init == IInit /\ truth \in PermsOf(N) /\ pass = <<>>
D == {"L", "R"}
Sz(d, k) == IF d = "L" THEN k ELSE N - k
DoOpen == \E k \in 1..N - 1, d \in D :
            /\ (\A o \in DOMAIN ds : parts[ds[o].part].cnt = Sz(o, k))
            /\ OpenDs(d, d, N, Sz(d, k), IF d = "L" THEN "R" ELSE "L", FALSE)
            /\ pass' = Put(pass, d, [seen |-> {}, mixed |-> FALSE]) /\ UNCHANGED truth
DoSh == \E d \in DOMAIN ds : d \notin DOMAIN shs /\ NewShuffler(d, parts[d].cnt) /\ UNCHANGED <<truth, pass>>
DoShuffle == \E s \in DOMAIN shs : \E p \in PermsOf(Len(shs[s])) :
             Shuffle(s, p) /\ UNCHANGED truth
             /\ pass' = [d \in DOMAIN pass |-> IF ds[d].sh = s /\ pass[d].seen # {} THEN [pass[d] EXCEPT !.mixed = TRUE] ELSE pass[d]]
DoAttach == \E d \in DOMAIN ds, s \in DOMAIN shs, ok \in BOOLEAN :
             Attach(d, s, ok) /\ UNCHANGED truth /\ pass' = [pass EXCEPT ![d].mixed = (@ \/ (ok /\ pass[d].seen # {}))]
RowAt(d, k) == IF d = "L" THEN truth[k + 1] ELSE truth[(N - parts[d].cnt) + k + 1]
DoNext == \E d \in DOMAIN ds : ds[d].off < parts[d].cnt
             /\ LET r == RowAt(d, Position(d)) IN Next1(d, r) /\ pass' = [pass EXCEPT ![d].seen = @ \cup {r}]
             /\ UNCHANGED truth
DoEnd == \E d \in DOMAIN ds : ds[d].off = parts[d].cnt /\ Next1(d, -1) /\ UNCHANGED <<truth, pass>>
DoRestart == \E d \in DOMAIN ds : ds[d].off > 0 /\ Restart(d) /\ pass' = [pass EXCEPT ![d] = [seen |-> {}, mixed |-> FALSE]] /\ UNCHANGED truth
Nx == DoOpen \/ DoSh \/ DoShuffle \/ DoAttach \/ DoNext \/ DoEnd \/ DoRestart
Spec == Init /\ [][Nx]_vars
FullPass == \A d \in DOMAIN ds : (ds[d].off = parts[d].cnt /\ ~pass[d].mixed) => Cardinality(pass[d].seen) = parts[d].cnt
====
