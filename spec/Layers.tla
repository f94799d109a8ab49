------------------------------- MODULE Layers -------------------------------
(* What every layer answers, the error it hands back, and the gradients of its weights; what   *)
(* every loss says and the error it starts from.  Numbers are fixed point (Tensor.tla); noisy   *)
(* tensors hold <<value, tolerance>> per element.                                               *)
EXTENDS Tensor
Plain(t) == [t EXCEPT !.v = TLCEval([n \in 1..Len(t.v) |-> t.v[n][1]])]
Zero(r, c, k) == Mk(r, c, k, LAMBDA i, j, ch : <<0, 0>>)
Plus(a, b) == Zip(a, b, LAMBDA x, y : <<x[1] + y[1], x[2] + y[2]>>)
Scaled(a, s) == Same(a, LAMBDA x : <<Pr(x, s), PrE(x, s)>>)
-----------------------------------------------------------------------------
(* activations of one number *)
Sig(x) == IF x >= 0 THEN (F * F) \div (F + Exp(-x)) ELSE F - (F * F) \div (F + Exp(x))
SigD(x) == LET s == Sig(x) IN (s * (F - s)) \div F
Tanh(x) == 2 * Sig(2 * x) - F
Sign(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
\* 0.5 * (x / (1 + |x|) + 1)
SigA(x) == (Qu(x, F + Abs(x)) + F) \div 2
\* 0.5 / (1 + |x|)^2
SigAD(x) == (((F * F) \div (F + Abs(x))) * F) \div (2 * (F + Abs(x)))
Act(name, x) == CASE name = "relu" -> Max(x, 0) [] name = "leaky" -> IF x < 0 THEN x \div 100 ELSE x
                  [] name = "linear" -> x [] name = "sigmoid" -> Sig(x) [] name \in {"tanh", "tanhApprox"} -> Tanh(x) [] name = "sigmoidApprox" -> SigA(x)
ActD(name, x) == CASE name = "relu" -> IF x > 0 THEN F ELSE 0 [] name = "leaky" -> IF x < 0 THEN F \div 100 ELSE F
                   [] name = "linear" -> F [] name = "sigmoid" -> SigD(x)
                   [] name \in {"tanh", "tanhApprox"} -> F - (Tanh(x) * Tanh(x)) \div F [] name = "sigmoidApprox" -> SigAD(x)
\* the tables of Exp are good to a few thousandths
ActE(name) == IF name \in {"relu", "leaky", "linear"} THEN 1 ELSE 6
Softmax(t) == LET m == SetMax(Vals(t)) s == Sum([n \in 1..Len(t.v) |-> Exp(t.v[n] - m)]) IN Same(t, LAMBDA x : <<Qu(Exp(x - m), s), 8>>)
-----------------------------------------------------------------------------
(* layers; w is a sequence of weight tensors, x a sequence of inputs *)
Conv(x, w) == Mk(x.r - w[1].r + 1, x.c - w[1].c + 1, Len(w), LAMBDA i, j, f : LET g == w[f + 1] n == g.r * g.c * g.k IN
    Dot([m \in 1..n |-> At(x, i + Row(m, g.r, g.c), j + Col(m, g.c), Chan(m, g.r, g.c))], [m \in 1..n |-> g.v[m]]))
\* the error of the input of a convolution: every output that used the element, with the weight it was used with
ConvDx(x, w, e) == Mk(x.r, x.c, x.k, LAMBDA i, j, ch : LET g == w[1] n == g.r * g.c * Len(w)
                                                          oi(m) == i - Row(m, g.r, g.c)  oj(m) == j - Col(m, g.c)
                                                          in(m) == oi(m) >= 0 /\ oi(m) < e.r /\ oj(m) >= 0 /\ oj(m) < e.c IN
    Dot([m \in 1..n |-> IF in(m) THEN At(e, oi(m), oj(m), Chan(m, g.r, g.c)) ELSE 0],
        [m \in 1..n |-> IF in(m) THEN At(w[Chan(m, g.r, g.c) + 1], Row(m, g.r, g.c), Col(m, g.c), ch) ELSE 0]))
ConvDw(x, w, e, f) == Mk(w[f].r, w[f].c, w[f].k, LAMBDA i, j, ch : LET n == e.r * e.c IN
    Dot([m \in 1..n |-> At(x, i + Row(m, e.r, e.c), j + Col(m, e.c), ch)], [m \in 1..n |-> At(e, Row(m, e.r, e.c), Col(m, e.c), f - 1)]))
RECURSIVE CatAll(_)
CatAll(xs) == IF Len(xs) = 1 THEN xs[1] ELSE LET a == TLCEval(CatAll(SubSeq(xs, 1, Len(xs) - 1))) b == xs[Len(xs)] IN
    Mk(a.r, a.c + b.c, a.k, LAMBDA i, j, ch : IF j < a.c THEN At(a, i, j, ch) ELSE At(b, i, j - a.c, ch))
Before(cs, n) == Sum([i \in 1..(n - 1) |-> cs[i]])
Columns(t, from, n) == Mk(t.r, n, t.k, LAMBDA i, j, ch : At(t, i, j + from, ch))
Trainable(K) == K.layer \in {"full", "conv", "bias"}
\* p: what the layer was made with
Forward(K, w, xs) == LET x == xs[1] IN
    CASE K.layer = "full" -> MatMul(x, w[1])
      [] K.layer = "conv" -> Conv(x, w)
      [] K.layer = "bias" -> Op("add", x, w[1], x, <<>>)
      [] K.layer = "cat" -> Exactly(CatAll(xs))
      [] K.layer = "flat" -> Exactly(Reshape(x, 1, Size(x), 1))
      [] K.layer = "act" -> IF K.act = "softmax" THEN Softmax(x) ELSE Same(x, LAMBDA y : <<Act(K.act, y), ActE(K.act)>>)
      [] K.layer = "drop" -> Same(x, LAMBDA y : <<Pr(y, F - K.rate), PrE(y, F - K.rate)>>)   \* while answering; while learning see Dropped
\* the errors of the inputs
Backward(K, w, xs, e) == LET x == xs[1] IN
    CASE K.layer = "full" -> <<MatMul(e, Transpose(w[1]))>>
      [] K.layer = "conv" -> <<ConvDx(x, w, e)>>
      [] K.layer = "bias" -> <<Exactly(e)>>
      [] K.layer = "cat" -> [n \in 1..Len(xs) |-> Exactly(Columns(e, Before([i \in 1..Len(xs) |-> xs[i].c], n), xs[n].c))]
      [] K.layer = "flat" -> <<Exactly(Reshape(e, x.r, x.c, x.k))>>
      \* softmax is followed by the categorical cross entropy, whose error is that of the input of the softmax
      [] K.layer = "act" -> IF K.act = "softmax" THEN <<Exactly(e)>>
                            ELSE <<Zip(x, e, LAMBDA y, z : <<Pr(ActD(K.act, y), z), 2 + (Abs(z) * ActE(K.act)) \div F>>)>>
\* the gradients of the weights
Grads(K, w, xs, e) == LET x == xs[1] IN
    CASE K.layer = "full" -> <<MatMul(Transpose(x), e)>>
      [] K.layer = "conv" -> [f \in 1..Len(w) |-> ConvDw(x, w, e, f)]
      [] K.layer = "bias" -> <<Exactly(e)>>
\* regularization pulls the weights (not a bias) towards zero
Pulled(K, w, g) == IF K.l2 = 0 \/ K.layer = "bias" THEN g ELSE TLCEval([n \in 1..Len(w) |-> TLCEval(Plus(g[n], Scaled(w[n], K.l2)))])
RECURSIVE Total(_, _)
Total(gs, n) == IF Len(gs) = 1 THEN gs[1][n] ELSE TLCEval(Plus(gs[1][n], Total(Tail(gs), n)))
\* after an update with the errors gs of a batch: the weights moved by the rate times their average error
Updated(K, w, gs) == TLCEval([n \in 1..Len(w) |-> LET t == TLCEval(Total(gs, n)) m == Len(gs) IN
    Zip(w[n], t, LAMBDA a, b : <<a - Pr(b[1] \div m, K.lr), 4 + ((b[2] \div m + 2) * K.lr) \div F + PrE(b[1] \div m, K.lr)>>)])
\* while learning a dropout layer lets every element pass or not; backwards the same ones
Dropped(x, y) == SameShape(x, y) /\ \A n \in 1..Len(x.v) : y.v[n] = 0 \/ Abs(y.v[n] - x.v[n]) <= 1
Mask(x, y) == [n \in 1..Len(x.v) |-> IF x.v[n] = 0 THEN 2 ELSE IF y.v[n] = 0 THEN 0 ELSE 1]   \* 2: cannot be told
SameMask(m, e, dx) == SameShape(e, dx) /\ \A n \in 1..Len(e.v) : CASE m[n] = 0 -> dx.v[n] = 0 [] m[n] = 1 -> Abs(dx.v[n] - e.v[n]) <= 1
                                                                   [] OTHER -> dx.v[n] = 0 \/ Abs(dx.v[n] - e.v[n]) <= 1
\* how many were dropped: within five deviations of the rate; x without zeros
Often(K, m) == LET n == Len(m) d == Sum([i \in 1..n |-> IF m[i] = 0 THEN 1 ELSE 0]) off == Abs(d * F - n * K.rate) IN
    (off \div F + 1) * (off \div F + 1) <= 4 + ((25 * n * ((K.rate * (F - K.rate)) \div F)) \div F) + 2 * (off \div F + 1)
\* standardizing y = (x - mean) / deviation turns an error e into (e - mean(e) - y * mean(e * y)) / deviation
NormDx(x, y, e, dx) == LET n == Len(x.v) lo == SetMin(Vals(x)) hi == SetMax(Vals(x)) ylo == SetMin(Vals(y)) yhi == SetMax(Vals(y))
                           me == Sum(e.v) \div n  mey == Sum([i \in 1..n |-> Pr(e.v[i], y.v[i])]) \div n IN
    /\ SameShape(x, dx)
    /\ IF hi - lo <= 300 THEN TRUE
       ELSE \A i \in 1..n : LET want == e.v[i] - me - Pr(y.v[i], mey) IN     \* divided by the deviation, which is (hi - lo) / (yhi - ylo)
                Abs(dx.v[i] - (want * (yhi - ylo)) \div (hi - lo)) <= 12 + (12 * (yhi - ylo)) \div (hi - lo) + Abs(dx.v[i]) \div 100
-----------------------------------------------------------------------------
(* losses of a prediction, and the error they start from: n times the derivative of a mean over n elements, *)
(* the derivative of a sum; for the categorical cross entropy that of the input of the softmax before it.   *)
\* minus the natural logarithm of multiples of 0.05 (5 percent steps)
LnT == <<2996, 2303, 1897, 1609, 1386, 1204, 1050, 916, 799, 693, 598, 511, 431, 357, 288, 223, 163, 105, 51>>
\* minus the logarithm of p, clamped away from 0
NegLn(p) == IF p >= F THEN 0 ELSE IF p <= 0 THEN 18421 ELSE LnT[p \div 50]
Smooth(d) == IF Abs(d) < F THEN ((d * d) \div F) \div 2 ELSE Abs(d) - F \div 2
LossOf(name, t, p) == LET n == Len(t.v) D(i) == p.v[i] - t.v[i] IN
    CASE name = "mse" -> Sum([i \in 1..n |-> Pr(D(i), D(i))]) \div n
      [] name = "mae" -> Sum([i \in 1..n |-> Abs(D(i))]) \div n
      [] name = "smae" -> Sum([i \in 1..n |-> Smooth(D(i))]) \div n
      [] name = "bce" -> Sum([i \in 1..n |-> Pr(t.v[i], NegLn(p.v[i])) + Pr(F - t.v[i], NegLn(F - p.v[i]))])
      [] name = "cce" -> Sum([i \in 1..n |-> Pr(t.v[i], NegLn(p.v[i]))])
\* <<value, tolerance>>; where the binary cross entropy has no bound only the direction is given
LossD(name, t, p) == CASE name = "mse" -> 2 * (p - t)
                      [] name = "mae" -> F * Sign(p - t)
                      [] name = "smae" -> IF Abs(p - t) < F THEN p - t ELSE F * Sign(p - t)
                      [] name = "bce" -> -(Qu(t, p) - Qu(F - t, F - p))
                      [] name = "cce" -> p - t
DerivOk(name, t, p, d) == IF name = "bce" /\ (p <= 0 \/ p >= F) THEN (t > p => d <= -F) /\ (t < p => d >= F)
                          ELSE Abs(d - LossD(name, t, p)) <= 4 + Abs(d) \div 500
LossOk(name, t, p, v) == Abs(v - LossOf(name, t, p)) <= 3 + Len(t.v) * 2 + v \div 500
=============================================================================
