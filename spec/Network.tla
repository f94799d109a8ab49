------------------------------ MODULE Network ------------------------------
(* A network of nodes as a dataflow graph.  A graph g is a record:                          *)
(*   n      nodes are 1..n          edges  sequence of <<from, to>> in the order they were  *)
(*   heads  input nodes, in order   outs   output nodes, in order       made               *)
(*   clip   nodes whose flowing-back errors are limited to ClipAt                           *)
(* Computation of a node is left abstract by two functions of this module (what the probe   *)
(* layers of the driver compute); everything else is what the network must arrange.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mod(x, y) == x - y * (x \div y)
ClipAt == 60
RECURSIVE Pick(_, _, _)
\* indices of the edges of g whose end k (1 = from, 2 = to) is node v, in creation order
Pick(es, k, v) == IF es = <<>> THEN <<>>
                  ELSE LET m == Len(es) rest == Pick(SubSeq(es, 1, m - 1), k, v)
                       IN IF es[m][k] = v THEN Append(rest, m) ELSE rest
Ins(g, v) == Pick(g.edges, 2, v)
Outs(g, v) == Pick(g.edges, 1, v)
Nodes(g) == 1..g.n
\* the output of node v for inputs x (a sequence, in connection order)
RECURSIVE Weighted(_)
Weighted(x) == IF x = <<>> THEN 0 ELSE Weighted(SubSeq(x, 1, Len(x) - 1)) + (Len(x) + 1) * x[Len(x)]
Out(v, x) == Mod(v + Weighted(x), 997)
\* the error node v sends along its k-th incoming connection when it received e
Sent(g, v, k, e) == LET r == 12 * Mod(e + 7 * v + 3 * (k - 1), 101) IN IF v \in g.clip /\ r > ClipAt THEN ClipAt ELSE r
\* position of edge i among the incoming connections of its end
PosIn(g, i) == LET s == Ins(g, g.edges[i][2]) IN CHOOSE k \in 1..Len(s) : s[k] = i
PosOf(s, v) == CHOOSE k \in 1..Len(s) : s[k] = v
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
Average(s) == Sum(s) \div Len(s)
Exact(s) == Mod(Sum(s), Len(s)) = 0
----------------------------------------------------------------------------
(* what the whole network computes, by recursion over the graph *)
RECURSIVE Value(_, _, _)
Value(g, x, v) == IF \E k \in 1..Len(g.heads) : g.heads[k] = v THEN Out(v, <<x[PosOf(g.heads, v)]>>)
                  ELSE LET s == Ins(g, v) IN Out(v, [k \in 1..Len(s) |-> Value(g, x, g.edges[s[k]][1])])
RECURSIVE ErrorAt(_, _, _)
\* the error node v receives when the output nodes received errs: the average of what the nodes it feeds send back
ErrorAt(g, errs, v) == IF \E k \in 1..Len(g.outs) : g.outs[k] = v THEN errs[PosOf(g.outs, v)]
                       ELSE LET s == Outs(g, v)
                            IN Average([k \in 1..Len(s) |-> LET w == g.edges[s[k]][2] IN Sent(g, w, PosIn(g, s[k]), ErrorAt(g, errs, w))])
----------------------------------------------------------------------------
(* the machine: values wait on edges (full), errors wait on edges (back); a node fires when  *)
(* everything it needs waits.                                                                *)
VARIABLES phase,   \* "idle", "forward", "backward", "apply"
          inp,     \* the inputs of the current pass
          full,    \* edge -> value waiting there (a function of the edges that hold one)
          done,    \* nodes that computed / got their error / were updated in this phase
          res,     \* node -> value computed in this pass
          truth,   \* errors given to the outputs in this pass, in output order
          back     \* edge -> error waiting there
nvars == <<phase, inp, full, done, res, truth, back>>
NInit == phase = "idle" /\ inp = <<>> /\ full = <<>> /\ done = {} /\ res = <<>> /\ truth = <<>> /\ back = <<>>
Begin(g, x) == /\ phase = "idle" /\ Len(x) = Len(g.heads)
               /\ phase' = "forward" /\ inp' = x /\ full' = <<>> /\ done' = {} /\ res' = <<>> /\ truth' = <<>> /\ back' = <<>>
Gets(g, v) == IF \E k \in 1..Len(g.heads) : g.heads[k] = v THEN <<inp[PosOf(g.heads, v)]>>
              ELSE LET s == Ins(g, v) IN [k \in 1..Len(s) |-> full[s[k]]]
CanFire(g, v) == /\ phase = "forward" /\ v \in Nodes(g) /\ v \notin done
                 /\ \A k \in 1..Len(Ins(g, v)) : Ins(g, v)[k] \in DOMAIN full
SetOf(s) == {s[k] : k \in 1..Len(s)}
Fire(g, v) == /\ CanFire(g, v)
              /\ LET y == Out(v, Gets(g, v)) IN
                 /\ res' = (v :> y) @@ res
                 /\ full' = [e \in (DOMAIN full \ SetOf(Ins(g, v))) \cup SetOf(Outs(g, v)) |-> IF e \in SetOf(Outs(g, v)) THEN y ELSE full[e]]
              /\ done' = done \cup {v} /\ UNCHANGED <<phase, inp, truth, back>>
AllDone(g) == done = Nodes(g)
Answer(g) == [k \in 1..Len(g.outs) |-> res[g.outs[k]]]
Deliver(g) == phase = "forward" /\ AllDone(g) /\ phase' = "idle" /\ done' = {} /\ UNCHANGED <<inp, full, res, truth, back>>
\* the next output gets its error (all nodes have computed); the first one starts the way back
Judge(g, e) == /\ \/ phase = "forward" /\ AllDone(g) /\ done' = {}
                  \/ phase = "backward" /\ UNCHANGED done
               /\ Len(truth) < Len(g.outs)
               /\ phase' = "backward" /\ truth' = Append(truth, e) /\ UNCHANGED <<inp, full, res, back>>
CanReturn(g, v) == /\ phase = "backward" /\ v \in Nodes(g) /\ v \notin done
                   /\ IF \E k \in 1..Len(g.outs) : g.outs[k] = v THEN Len(truth) >= PosOf(g.outs, v) ELSE SetOf(Outs(g, v)) \subseteq DOMAIN back
Received(g, v) == IF \E k \in 1..Len(g.outs) : g.outs[k] = v THEN truth[PosOf(g.outs, v)]
                  ELSE LET s == Outs(g, v) IN Average([k \in 1..Len(s) |-> back[s[k]]])
Return(g, v) == /\ CanReturn(g, v)
                /\ LET e == Received(g, v) IN
                   back' = [i \in (DOMAIN back \ SetOf(Outs(g, v))) \cup SetOf(Ins(g, v)) |-> IF i \in SetOf(Ins(g, v)) THEN Sent(g, v, PosIn(g, i), e) ELSE back[i]]
                /\ done' = done \cup {v} /\ UNCHANGED <<phase, inp, full, res, truth>>
BackDone(g) == phase = "backward" /\ AllDone(g) /\ Len(truth) = Len(g.outs)
Settle(g) == BackDone(g) /\ phase' = "idle" /\ done' = {} /\ UNCHANGED <<inp, full, res, truth, back>>
Update(g, v) == /\ ((BackDone(g) /\ done' = {v}) \/ (phase = "apply" /\ v \notin done /\ done' = done \cup {v}))
                /\ v \in Nodes(g) /\ phase' = "apply" /\ UNCHANGED <<inp, full, res, truth, back>>
Updated(g) == phase = "apply" /\ AllDone(g) /\ phase' = "idle" /\ done' = {} /\ UNCHANGED <<inp, full, res, truth, back>>
=============================================================================
