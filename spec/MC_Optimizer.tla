---------------------------- MODULE MC_Optimizer ----------------------------
(* Two weights and a bias under one optimizer, every interleaving of gradients: what each     *)
(* one has accumulated is the fold of its own gradients alone, and the steps of the momentum  *)
(* and adaptive rules keep the sign and bounds the rules promise.                             *)
EXTENDS Optimizer
CONSTANTS MaxUpdates
VARIABLES rule, st, given
Params == {"w1", "w2", "b1"}
Rate == 1000000
Init == rule \in {"sgd", "sgdm", "adam"} /\ st = [p \in Params |-> Fresh] /\ given = [p \in Params |-> <<>>]
Total == Len(given["w1"]) + Len(given["w2"]) + Len(given["b1"])
Update == Total < MaxUpdates /\ \E p \in Params, g \in {0 - 2, 0, 1} :
            st' = [st EXCEPT ![p] = After(rule, @, g, Rate)] /\ given' = [given EXCEPT ![p] = Append(@, g)] /\ UNCHANGED rule
Spec == Init /\ [][Update]_<<rule, st, given>>
Own == \A p \in Params : st[p] = Fold(rule, given[p], Rate)
\* momentum is bounded by rate * 2 / (1 - 0.9); an adaptive step never exceeds the rate by more than 0.1/sqrt(0.001) * steps
Bounded == \A p \in Params : /\ rule = "sgdm" => Abs(st[p].m) <= 2 * 10 * (Rate \div 10)
                             /\ rule = "adam" => Abs(st[p].m) <= 20000000 /\ st[p].v >= 0
SqrtRight == \A x \in {0, 1, 2, 3, 4, 99, 100, 101, 1000000, 2147395599, 2147395600} : LET s == Sqrt(x) IN s * s <= x /\ (s = 46340 \/ (s + 1) * (s + 1) > x)
Signs == \A p \in Params : (given[p] # <<>> /\ \A i \in 1..Len(given[p]) : given[p][i] > 0) => StepOf(rule, st[p], 1, Rate) > 0
=============================================================================
