---- MODULE T_N06 ----
(* init: the weights a layer starts with; fwd: inputs x gave y (train: while learning); bwd: the error err gave the *)
(* errors dx of the inputs; apply: the weights after an update; loss: what a loss says and its error;               *)
(* step: one training step of a whole network: sizes n of its outputs, their losses before and after, and q: the    *)
(* squared length of the step over the rate.                                                                        *)
EXTENDS Layers, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, w, x, y, gs   \* weights; last learning inputs and answer; errors of the weights since the last update
K == Cases[c]
E == K.ev[l]
CloseAll(ts, want) == Len(ts) = Len(want) /\ \A n \in 1..Len(ts) : Close(ts[n], want[n])
InitEv == E.e = "init" /\ w' = E.w /\ UNCHANGED <<x, y, gs>>
FwdOk == IF K.layer = "norm" THEN Standardized(E.x[1], E.y)
         ELSE IF K.layer = "drop" /\ E.train THEN Dropped(E.x[1], E.y) /\ (K.many => Often(K, Mask(E.x[1], E.y)))
         ELSE Close(E.y, Forward(K, w, E.x))
Fwd == /\ E.e = "fwd" /\ FwdOk = TRUE
       /\ IF E.train THEN x' = E.x /\ y' = E.y ELSE UNCHANGED <<x, y>>
       /\ UNCHANGED <<w, gs>>
BwdOk == CASE K.layer = "norm" -> Len(E.dx) = 1 /\ NormDx(x[1], y, E.err, E.dx[1])
           [] K.layer = "drop" -> Len(E.dx) = 1 /\ SameMask(Mask(x[1], y), E.err, E.dx[1])
           [] OTHER -> CloseAll(E.dx, Backward(K, w, x, E.err))
Bwd == /\ E.e = "bwd" /\ x # <<>> /\ BwdOk = TRUE
       /\ gs' = IF Trainable(K) THEN Append(gs, Pulled(K, w, Grads(K, w, x, E.err))) ELSE gs
       /\ UNCHANGED <<w, x, y>>
Apply == /\ E.e = "apply" /\ CloseAll(E.w, Updated(K, w, gs)) = TRUE /\ w' = E.w /\ gs' = <<>> /\ UNCHANGED <<x, y>>
LossEv == /\ E.e = "loss" /\ SameShape(E.t, E.d) /\ LossOk(K.loss, E.t, E.p, E.loss) = TRUE
          /\ (\A n \in 1..Len(E.t.v) : DerivOk(K.loss, E.t.v[n], E.p.v[n], E.d.v[n])) = TRUE
          /\ UNCHANGED <<w, x, y, gs>>
\* a step of length s against the error e lowers the loss by the error times the step, up to second order
Worth(n) == IF K.loss \in {"bce", "cce"} THEN 1 ELSE n
StepEv == /\ E.e = "step" /\ Len(E.before) = Len(E.n) /\ Len(E.after) = Len(E.n)
          /\ LET gain == Sum([i \in 1..Len(E.n) |-> Worth(E.n[i]) * (E.before[i] - E.after[i])])
                 blur == Sum([i \in 1..Len(E.n) |-> Worth(E.n[i]) * (8 + E.before[i] \div 1000000)]) IN
             (Abs(gain - E.q) <= E.q \div 5 + blur) = TRUE
          /\ UNCHANGED <<w, x, y, gs>>
Step == InitEv \/ Fwd \/ Bwd \/ Apply \/ LossEv \/ StepEv
More == ~bad /\ l <= Len(K.ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ w = <<>> /\ x = <<>> /\ y = <<>> /\ gs = <<>>
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, w, x, y, gs>>
Spec == Init /\ [][Next]_<<c, l, bad, w, x, y, gs>>
====
