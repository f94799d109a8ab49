----------------------------- MODULE MC_Network -----------------------------
(* Every acyclic graph of N nodes (every leaf an output, every root an input), every order   *)
(* in which nodes may fire: the machine ends with each node done once, no value left over,   *)
(* and the values and errors of the recursive definition.                                    *)
EXTENDS Network
CONSTANTS N, MaxEdges
VARIABLES g, left
Pairs == {<<i, j>> \in (1..N) \X (1..N) : i < j}
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Append(AsSeq(S \ {x}), x)
Twice(es) == {es} \cup (IF es = <<>> THEN {} ELSE {Append(es, es[1])})
Roots(es) == {v \in 1..N : \A i \in 1..Len(es) : es[i][2] # v}
Leaves(es) == {v \in 1..N : \A i \in 1..Len(es) : es[i][1] # v}
Graphs == {[n |-> N, edges |-> es, heads |-> AsSeq(Roots(es)), outs |-> AsSeq(Leaves(es)), clip |-> {3}] :
             es \in UNION {Twice(AsSeq(S)) : S \in {S \in SUBSET Pairs : Cardinality(S) <= MaxEdges}}}
Inputs == [k \in 1..Len(g.heads) |-> 10 * k + left]
Init == g \in Graphs /\ NInit /\ left = 2
DoBegin == left > 0 /\ Begin(g, Inputs) /\ left' = left - 1 /\ UNCHANGED g
DoFire == \E v \in 1..N : Fire(g, v) /\ UNCHANGED <<g, left>>
DoJudge == Judge(g, 5 + Len(truth)) /\ UNCHANGED <<g, left>>
DoReturn == \E v \in 1..N : Return(g, v) /\ UNCHANGED <<g, left>>
DoSettle == left > 0 /\ Settle(g) /\ UNCHANGED <<g, left>>
DoUpdate == left = 0 /\ (\E v \in 1..N : Update(g, v)) /\ UNCHANGED <<g, left>>
DoUpdated == Updated(g) /\ UNCHANGED <<g, left>>
Next == DoBegin \/ DoFire \/ DoJudge \/ DoReturn \/ DoSettle \/ DoUpdate \/ DoUpdated
Spec == Init /\ [][Next]_<<nvars, g, left>> /\ WF_<<nvars, g, left>>(Next)
ValuesAgree == \A v \in DOMAIN res : res[v] = Value(g, inp, v)
Errs == [k \in 1..Len(g.outs) |-> 4 + k]
ReturnAgrees == (phase = "backward" /\ Len(truth) = Len(g.outs)) => \A v \in Nodes(g) : CanReturn(g, v) => Received(g, v) = ErrorAt(g, Errs, v)
NothingLeft == /\ (phase \in {"backward", "apply", "idle"} => full = <<>>)
               /\ ((phase = "apply" \/ BackDone(g)) => back = <<>>)
AlwaysWhole == \A v \in Nodes(g) : (CanReturn(g, v) /\ v \notin SetOf(g.outs)) => LET s == Outs(g, v) IN Len(s) \in {1, 2, 3, 4} => Exact([k \in 1..Len(s) |-> back[s[k]]])
Ends == <>(phase = "idle" /\ left = 0)
=============================================================================
