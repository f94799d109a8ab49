----------------------------- MODULE MC_Layers ------------------------------
(* The errors and gradients of Layers.tla are the derivatives of what the layers answer and the losses say.  *)
(* Layers that are linear in their input and in their weights are probed with every unit input, unit weight  *)
(* and unit error, which settles them for the shape; the others by differences over a grid.                  *)
EXTENDS Layers, FiniteSets
VARIABLE p
U(s, n) == [r |-> s[1], c |-> s[2], k |-> s[3], v |-> TLCEval([i \in 1..(s[1] * s[2] * s[3]) |-> IF i = n THEN F ELSE 0])]
N(s) == s[1] * s[2] * s[3]
\* [K, shape of the input, shape of a weight tensor, number of them, shape of the output]
Shapes == { [layer |-> "full", x |-> <<1, 3, 1>>, w |-> <<3, 2, 1>>, m |-> 1, y |-> <<1, 2, 1>>],
            [layer |-> "full", x |-> <<2, 2, 1>>, w |-> <<2, 3, 1>>, m |-> 1, y |-> <<2, 3, 1>>],
            [layer |-> "conv", x |-> <<3, 3, 2>>, w |-> <<2, 2, 2>>, m |-> 2, y |-> <<2, 2, 2>>],
            [layer |-> "conv", x |-> <<3, 4, 1>>, w |-> <<3, 3, 1>>, m |-> 3, y |-> <<1, 2, 3>>],
            [layer |-> "conv", x |-> <<2, 3, 3>>, w |-> <<1, 1, 3>>, m |-> 2, y |-> <<2, 3, 2>>],
            [layer |-> "bias", x |-> <<2, 2, 2>>, w |-> <<2, 2, 2>>, m |-> 1, y |-> <<2, 2, 2>>],
            [layer |-> "flat", x |-> <<2, 3, 2>>, w |-> <<0, 0, 0>>, m |-> 0, y |-> <<1, 12, 1>>] }
Linear(s) == [t : {"linear"}, s : {s}, x : 1..N(s.x), f : 1..Max(1, s.m), w : 1..Max(1, N(s.w)), e : 1..N(s.y)]
Cats == [t : {"cat"}, cs : {<<1, 2>>, <<2, 1, 3>>, <<2, 2>>}, n : 1..3, x : 1..12, e : 1..24]
Steps(a, b, d) == {a + d * i : i \in 0..((b - a) \div d)}
Acts == [t : {"act"}, name : {"relu", "leaky", "linear", "sigmoid", "tanh", "tanhApprox", "sigmoidApprox"}, x : Steps(-3050, 3000, 100)]
Losses == [t : {"loss"}, name : {"mse", "mae", "smae"}, a : Steps(-3000, 3000, 250), b : Steps(-3025, 3000, 150)]
          \cup [t : {"loss"}, name : {"bce"}, a : {0, 250, 500, 1000}, b : Steps(300, 700, 50)]
Softs == [t : {"soft"}, z : [1..3 -> {-2000, -500, 0, 750, 1500}], i : 1..3, k : 1..3]
Norms == [t : {"norm"}, x : [1..3 -> {-4000, -1000, 2000, 5000}], e : 1..3]
Family(f) == CASE f = "cat" -> Cats [] f = "act" -> Acts [] f = "loss" -> Losses [] f = "soft" -> Softs [] f = "norm" -> Norms [] OTHER -> {}
Inner(a, b) == LET s == TLCEval([n \in 1..Len(a.v) |-> Pr(a.v[n], b.v[n])]) IN Sum(s)
Minus(a, b) == Zip(a, b, LAMBDA g, h : g - h)
LinearOk(q) == LET K == [layer |-> q.s.layer] x == TLCEval(U(q.s.x, q.x)) e == TLCEval(U(q.s.y, q.e))
                   w == TLCEval([f \in 1..q.s.m |-> U(q.s.w, IF f = q.f THEN q.w ELSE 0)])
                   none == TLCEval([f \in 1..q.s.m |-> U(q.s.w, 0)])
                   Y(v, u) == Plain(Forward(K, v, <<u>>)) IN
    /\ Inner(Minus(Y(w, x), Y(w, TLCEval(U(q.s.x, 0)))), e) = Inner(x, Plain(TLCEval(Backward(K, w, <<x>>, e)[1])))
    /\ q.s.m = 0 \/ Inner(Minus(Y(w, x), Y(none, x)), e) = (LET g == TLCEval(Grads(K, w, <<x>>, e)) IN Inner(w[q.f], Plain(g[q.f])))
\* concatenation: two rows, two channels
CatOk(q) == LET S(i) == <<2, q.cs[i], 2>> n == Min(q.n, Len(q.cs)) K == [layer |-> "cat"]
                xs == [i \in 1..Len(q.cs) |-> U(S(i), IF i = n THEN q.x ELSE 0)] y == Plain(Forward(K, <<>>, xs))
                e == U(<<y.r, y.c, y.k>>, q.e) IN
    Inner(y, e) = Sum([i \in 1..Len(q.cs) |-> Inner(xs[i], Plain(Backward(K, <<>>, xs, e)[i]))])
H == 200
ActOk(q) == (Abs(q.x) < H /\ q.name \in {"relu", "leaky", "sigmoidApprox"}) \/
    LET d == Act(q.name, q.x + H) - Act(q.name, q.x - H) g == (2 * H * ActD(q.name, q.x)) \div F IN Abs(d - g) <= 14 /\ d >= -10
Vec(a, b) == [r |-> 1, c |-> 2, k |-> 1, v |-> <<a, b>>]
Scale(name) == IF name = "bce" THEN 1 ELSE 2
LossProbe(q) == (q.name \in {"mae", "smae"} /\ (Abs(q.a - q.b) < 50 \/ Abs(Abs(q.a - q.b) - F) < 50)) \/
    LET other == IF q.name = "bce" THEN <<F, 250>> ELSE <<-500, 750>>
        At2(b) == LossOf(q.name, Vec(q.a, other[1]), Vec(b, other[2])) IN
    Abs(Scale(q.name) * (At2(q.b + 50) - At2(q.b - 50)) - (100 * LossD(q.name, q.a, q.b)) \div F) <= 8
SoftOk(q) == LET Y(z) == Plain(Softmax([r |-> 1, c |-> 3, k |-> 1, v |-> z])).v y == Y(q.z)
                 d == Y([q.z EXCEPT ![q.i] = @ + H])[q.k] - Y([q.z EXCEPT ![q.i] = @ - H])[q.k] IN
    /\ Abs(Sum(y) - F) <= 6
    \* so the error of z under -ln(y[k]) is y[i] - (1 if i is k): the categorical cross entropy's error, passed through
    /\ Abs(d - (2 * H * ((y[q.k] * ((IF q.i = q.k THEN F ELSE 0) - y[q.i])) \div F)) \div F) <= 14
RECURSIVE Root(_, _, _)
Root(n, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= n THEN Root(n, m, hi) ELSE Root(n, lo, m)
Std(x) == LET m == Sum(x) \div 3 d == Root(Sum([i \in 1..3 |-> (x[i] - m) * (x[i] - m)]) \div 3, 0, 40000) IN [i \in 1..3 |-> Qu(x[i] - m, d)]
Three(x) == [r |-> 1, c |-> 3, k |-> 1, v |-> x]
NormOk(q) == (Cardinality({q.x[i] : i \in 1..3}) = 1) \/
    LET e == U(<<1, 3, 1>>, q.e)
        D(i) == ((Std([q.x EXCEPT ![i] = @ + H])[q.e] - Std([q.x EXCEPT ![i] = @ - H])[q.e]) * F) \div (2 * H) IN
    NormDx(Three(q.x), Three(Std(q.x)), e, Three([i \in 1..3 |-> D(i)])) /\ Standardized(Three(q.x), Three(Std(q.x)))
Holds(q) == CASE q.t = "linear" -> LinearOk(q) [] q.t = "cat" -> CatOk(q) [] q.t = "act" -> ActOk(q) [] q.t = "loss" -> LossProbe(q)
              [] q.t = "soft" -> SoftOk(q) [] q.t = "norm" -> NormOk(q) [] OTHER -> TRUE
Init == p \in [t : {"start"}, of : {"cat", "act", "loss", "soft", "norm"}] \cup [t : {"shape"}, of : Shapes, part : 1..3]
Probe == \/ p.t = "start" /\ p' \in Family(p.of)
         \/ p.t = "shape" /\ p' \in {q \in Linear(p.of) : Mod(q.x, 3) = p.part - 1}
Spec == Init /\ [][Probe]_p
DerivativesRight == Holds(p)
=============================================================================
