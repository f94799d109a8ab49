---- MODULE Tensor ----
(* Tensors as finite functions: r rows, c columns, k channels, v the elements channel by channel, row by row.
   Numbers are fixed point: F units are one. Op(...) gives, for every element of the result of an operation,
   its value and how far a float computation of it (on operands rounded to units) may lie from that value. *)
EXTENDS Integers, Sequences, TLC
F == 1000
Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a < b THEN b ELSE a
Min(a, b) == IF a < b THEN a ELSE b
Mod(a, b) == a - b * (a \div b)
Size(t) == t.r * t.c * t.k
\* the row, column and channel of the n-th element of a tensor with r rows and c columns
Row(n, r, c) == Mod((n - 1) \div c, r)
Col(n, c) == Mod(n - 1, c)
Chan(n, r, c) == (n - 1) \div (r * c)
At(t, i, j, ch) == t.v[ch * t.r * t.c + i * t.c + j + 1]
Mk(r, c, k, G(_, _, _)) == [r |-> r, c |-> c, k |-> k, v |-> TLCEval([n \in 1..(r * c * k) |-> G(Row(n, r, c), Col(n, c), Chan(n, r, c))])]
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE SumTo(s, n - 1) + s[n]
Sum(s) == SumTo(s, Len(s))
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Vals(t) == {t.v[n] : n \in 1..Len(t.v)}
\* products and quotients of fixed point numbers, and their tolerances
Pr(x, y) == (x * y) \div F
PrE(x, y) == (Abs(x) + Abs(y)) \div (2 * F) + 2
Qu(x, y) == (x * F) \div y
QuE(x, y) == 3 + (Abs(Qu(x, y)) + F) \div Abs(y)
\* the sum of the products x[i] * y[i]
Products(x, y) == <<Sum([i \in 1..Len(x) |-> Pr(x[i], y[i])]), Sum([i \in 1..Len(x) |-> PrE(x[i], y[i])])>>
Dot(x, y) == Products(TLCEval(x), TLCEval(y))
\* e to the power of x, for x between -8 and 5: a table for the whole part, a series for the fraction (scale 10000)
ETable == (-8 :> 0) @@ (-7 :> 1) @@ (-6 :> 2) @@ (-5 :> 7) @@ (-4 :> 18) @@ (-3 :> 50) @@ (-2 :> 135) @@ (-1 :> 368) @@ (0 :> 1000)
          @@ (1 :> 2718) @@ (2 :> 7389) @@ (3 :> 20086) @@ (4 :> 54598) @@ (5 :> 148413)
EFrac(f) == LET g == f * 10 IN      \* f units, 0 <= f < F
    10000 + g + (g * g) \div 20000 + (((g * g) \div 10000) * g) \div 60000
    + (((g * g) \div 10000) * ((g * g) \div 10000)) \div 240000 + (((((g * g) \div 10000) * g) \div 10000) * ((g * g) \div 10000)) \div 1200000
Exp(x) == LET w == x \div F IN IF w < -8 THEN 0 ELSE IF w >= 5 THEN 148413 ELSE (ETable[w] * EFrac(x - w * F)) \div 10000
ExpE(x) == 3 + Exp(x) \div 300
Same(t, G(_)) == [t EXCEPT !.v = TLCEval([n \in 1..Len(t.v) |-> G(t.v[n])])]
Exactly(t) == Same(t, LAMBDA x : <<x, 1>>)
IsPow(x, p) == CASE p = 0 -> <<F, 0>> [] p = F -> <<x, 1>> [] p = 2 * F -> <<Pr(x, x), PrE(x, x)>>
                 [] p = 3 * F -> <<Pr(Pr(x, x), x), PrE(Pr(x, x), x) + ((PrE(x, x) * Abs(x)) \div F)>>
Rotate(t) == Mk(t.r, t.c, t.k, LAMBDA i, j, ch : At(t, t.r - 1 - i, t.c - 1 - j, ch))
Pad(t, a, b, l, r) == Mk(t.r + a + b, t.c + l + r, t.k, LAMBDA i, j, ch :
    IF i < a \/ i >= a + t.r \/ j < l \/ j >= l + t.c THEN 0 ELSE At(t, i - a, j - l, ch))
Valid(t, g) == Mk(t.r - g.r + 1, t.c - g.c + 1, t.k, LAMBDA i, j, ch :
    Dot([n \in 1..(g.r * g.c) |-> At(t, i + Row(n, g.r, g.c), j + Col(n, g.c), ch)],
        [n \in 1..(g.r * g.c) |-> At(g, Row(n, g.r, g.c), Col(n, g.c), ch)]))
Full(t, g) == Valid(Pad(t, g.r - 1, g.r - 1, g.c - 1, g.c - 1), g)
MatMul(a, b) == Mk(a.r, b.c, a.k, LAMBDA i, j, ch : Dot([n \in 1..a.c |-> At(a, i, n - 1, ch)], [n \in 1..a.c |-> At(b, n - 1, j, ch)]))
Transpose(t) == Mk(t.c, t.r, t.k, LAMBDA i, j, ch : At(t, j, i, ch))
Reshape(t, r, c, k) == [r |-> r, c |-> c, k |-> k, v |-> t.v]
SameShape(a, b) == a.r = b.r /\ a.c = b.c /\ a.k = b.k
Zip(a, b, G(_, _)) == [a EXCEPT !.v = TLCEval([n \in 1..Len(a.v) |-> G(a.v[n], b.v[n])])]
\* whether an operation can be applied at all; b and c are ignored by operations that do not have them
Applies(op, a, b, c, p) ==
    CASE op \in {"add", "sub", "mul", "div"} -> SameShape(a, b)
      [] op = "matmul" -> a.c = b.r /\ a.k = b.k
      [] op = "matdiv" -> SameShape(a, b)
      [] op = "dot" -> a.r = 1 /\ b.r = 1 /\ a.k = 1 /\ b.k = 1 /\ a.c = b.c
      [] op = "reshape3" -> Size(a) = p[1] * p[2] * p[3]
      [] op = "reshape2" -> a.r * a.c = p[1] * p[2]
      [] op = "window" -> p[1] < p[2] /\ p[2] <= a.c
      [] op = "concat" -> a.r = b.r
      [] OTHER -> TRUE
\* operations given by a formula
Op(op, a, b, c, p) ==
    CASE op = "add" -> Zip(a, b, LAMBDA x, y : <<x + y, 2>>)
      [] op = "sub" -> Zip(a, b, LAMBDA x, y : <<x - y, 2>>)
      [] op = "mul" -> Zip(a, b, LAMBDA x, y : <<Pr(x, y), PrE(x, y)>>)
      [] op = "div" -> Zip(a, b, LAMBDA x, y : <<Qu(x, y), QuE(x, y)>>)
      [] op = "matmul" -> MatMul(a, b)
      [] op = "dot" -> [r |-> 1, c |-> 1, k |-> 1, v |-> <<Dot(a.v, b.v)>>]
      [] op = "outer" -> Mk(a.r, b.c, a.k, LAMBDA i, j, ch : <<Pr(At(a, i, 0, ch), At(b, 0, j, ch)), PrE(At(a, i, 0, ch), At(b, 0, j, ch))>>)
      [] op = "valid" -> Valid(a, b)
      [] op = "full" -> Full(a, b)
      [] op = "convolve" -> Full(a, Rotate(b))
      [] op = "concat" -> Mk(a.r, a.c + b.c, a.k, LAMBDA i, j, ch : <<IF j < a.c THEN At(a, i, j, ch) ELSE At(b, i, j - a.c, ch), 1>>)
      [] op = "abs" -> Same(a, LAMBDA x : <<Abs(x), 1>>)
      [] op = "noop" -> Exactly(a)
      [] op = "clip" -> Same(a, LAMBDA x : <<Max(p[1], Min(p[2], x)), 1>>)
      [] op = "sadd" -> Same(a, LAMBDA x : <<x + p[1], 2>>)
      [] op = "ssub" -> Same(a, LAMBDA x : <<x - p[1], 2>>)
      [] op = "subfrom" -> Same(a, LAMBDA x : <<p[1] - x, 2>>)
      [] op = "smul" -> Same(a, LAMBDA x : <<Pr(x, p[1]), PrE(x, p[1])>>)
      [] op = "mulby" -> Same(a, LAMBDA x : <<Pr(x, p[1]), PrE(x, p[1])>>)
      [] op = "sdiv" -> Same(a, LAMBDA x : <<Qu(x, p[1]), QuE(x, p[1])>>)
      [] op = "divinto" -> Same(a, LAMBDA x : <<Qu(p[1], x), QuE(p[1], x)>>)
      [] op = "inverse1" -> Same(a, LAMBDA x : <<Qu(F, x + p[1]), QuE(F, x + p[1])>>)
      [] op = "power" -> Same(a, LAMBDA x : IsPow(x, p[1]))
      [] op = "exp" -> Same(a, LAMBDA x : <<Exp(x), ExpE(x)>>)
      [] op = "norm" -> Same(a, LAMBDA x : <<Qu(x - p[1], p[2] - p[1]), QuE(x - p[1], p[2] - p[1])>>)
      [] op = "denorm" -> Same(a, LAMBDA x : <<Pr(x, p[2] - p[1]) + p[1], PrE(x, p[2] - p[1])>>)
      [] op = "std" -> Same(a, LAMBDA x : <<Qu(x - p[1], p[2]), QuE(x - p[1], p[2])>>)
      [] op = "unstd" -> Same(a, LAMBDA x : <<Pr(x, p[2]) + p[1], PrE(x, p[2])>>)
      [] op = "transform" -> Same(a, LAMBDA x : <<2 * x + F, 2>>)
      [] op = "transform2" -> Same(a, LAMBDA x : <<Pr(x, p[1]) - F, PrE(x, p[1])>>)
      [] op = "transpose" -> Exactly(Transpose(a))
      [] op = "rotate" -> Exactly(Rotate(a))
      [] op = "pad" -> Exactly(Pad(a, p[1], p[2], p[3], p[4]))
      [] op = "reshape3" -> Exactly(Reshape(a, p[1], p[2], p[3]))
      [] op = "reshape2" -> Exactly(Reshape(a, p[1], p[2], a.k))
      [] op = "rowflat" -> Exactly(Reshape(a, 1, Size(a), 1))
      [] op = "colflat" -> Exactly(Reshape(a, Size(a), 1, 1))
      [] op = "window" -> Mk(a.r, p[2] - p[1], a.k, LAMBDA i, j, ch : <<At(a, i, j + p[1], ch), 1>>)
      [] op = "channel" -> Mk(a.r, a.c, 1, LAMBDA i, j, ch : <<At(a, i, j, p[1]), 1>>)
      [] op = "sumchannels" -> Mk(a.r, a.c, 1, LAMBDA i, j, ch : <<Sum([m \in 1..a.k |-> At(a, i, j, m - 1)]), a.k + 1>>)
      [] op = "sumto" -> Mk(a.r, a.c, p[2], LAMBDA i, j, ch : IF ch = p[1] THEN <<Sum([m \in 1..a.k |-> At(a, i, j, m - 1)]), a.k + 1>> ELSE <<0, 0>>)
      [] op = "copy32" -> Exactly(a)
      [] op = "copy16" -> Same(a, LAMBDA x : <<x, Abs(x) \div 120 + 2>>)
      [] op = "copy8" -> Same(a, LAMBDA x : <<x, Abs(x) \div 8 + 20>>)
      [] op = "pixel" -> Same(a, LAMBDA x : <<Max(0, Min(F, x)), 5>>)
      [] op = "load32" -> Exactly(a)
      [] op = "load16" -> Same(a, LAMBDA x : <<x, Abs(x) \div 120 + 2>>)
      [] op = "load8" -> Same(a, LAMBDA x : <<x, Abs(x) \div 8 + 20>>)
      [] op = "loadpixel" -> Same(a, LAMBDA x : <<Max(0, Min(F, x)), 5>>)
      [] op = "uniform" -> Mk(p[1], p[2], p[3], LAMBDA i, j, ch : <<p[4], 1>>)
      [] op = "identity" -> Mk(p[1], p[2], p[3], LAMBDA i, j, ch : <<IF i = j THEN F ELSE 0, 0>>)
      [] op = "function" -> Mk(p[1], p[2], p[3], LAMBDA i, j, ch : <<(1 + i + 2 * j - 3 * ch) * F, 0>>)
      [] op = "full3" -> [r |-> p[1], c |-> p[2], k |-> p[3], v |-> [n \in 1..(p[1] * p[2] * p[3]) |-> <<p[n + 3], 1>>]]
      [] op = "full1" -> [r |-> 1, c |-> Len(p), k |-> 1, v |-> [n \in 1..Len(p) |-> <<p[n], 1>>]]
Formula == {"add", "sub", "mul", "div", "matmul", "dot", "outer", "valid", "full", "convolve", "concat", "abs", "noop", "clip", "sadd", "ssub",
    "subfrom", "smul", "mulby", "sdiv", "divinto", "inverse1", "power", "exp", "norm", "denorm", "std", "unstd", "transform", "transform2",
    "transpose", "rotate", "pad", "reshape3", "reshape2", "rowflat", "colflat", "window", "channel", "sumchannels", "sumto", "copy32", "copy16",
    "copy8", "pixel", "load32", "load16", "load8", "loadpixel", "uniform", "identity", "function", "full3", "full1"}
Close(y, want) == /\ y.r = want.r /\ y.c = want.c /\ y.k = want.k /\ Len(y.v) = Len(want.v)
                  /\ \A n \in 1..Len(y.v) : Abs(y.v[n] - want.v[n][1]) <= want.v[n][2]
\* operations given by what their result must satisfy; exact says that the operands carry no rounding
Each(a, y, G(_, _)) == SameShape(a, y) /\ Len(y.v) = Len(a.v) /\ \A n \in 1..Len(a.v) : G(a.v[n], y.v[n])
Unit(n, ch) == Mk(n, n, ch, LAMBDA i, j, m : IF i = j THEN F ELSE 0)
Near(t, x, tol) == \A n \in 1..Len(x.v) : Abs(t.v[n][1] - x.v[n]) <= tol + t.v[n][2]
Standardized(a, y) ==
    /\ SameShape(a, y)
    /\ LET lo == SetMin(Vals(a)) hi == SetMax(Vals(a)) n == Len(a.v) ylo == SetMin(Vals(y)) yhi == SetMax(Vals(y)) IN
       IF hi - lo <= 1 THEN ~(\E m \in 1..n : Abs(y.v[m]) > 1) \/ hi > lo
       ELSE /\ Abs(Sum(y.v)) <= n + 2
            /\ LET q == Sum([m \in 1..n |-> (y.v[m] * y.v[m]) \div 1000]) IN Abs(q - n * F) <= 10 * n + (20000 * n) \div (hi - lo)
            /\ \A m \in 1..n : Abs((y.v[m] - ylo) * (hi - lo) - (yhi - ylo) * (a.v[m] - lo)) <= 4 * ((hi - lo) + (yhi - ylo))
Rel(op, a, b, c, p, exact, y) ==
    CASE op = "sqrt" -> Each(a, y, LAMBDA x, z : z >= 0 /\ (x < 0 \/ Abs((z * z) \div F - x) <= PrE(z, z)))
      [] op = "half" -> Each(a, y, LAMBDA x, z : z >= 0 /\ (x < 0 \/ Abs((z * z) \div F - x) <= PrE(z, z)))
      [] op = "log" -> Each(a, y, LAMBDA x, z : IF x >= F THEN z = 0 ELSE IF x <= 0 THEN exact => Abs(z + 18421) <= 3
                                                 ELSE z <= 0 /\ Abs(Exp(z) - x) <= 4)
      [] op = "log2" -> Each(a, y, LAMBDA x, z : x > 0 => Abs(Exp((z * 6931) \div 10000) - x) <= 4 + x \div 300)
      [] op = "round" -> Each(a, y, LAMBDA x, z : (Mod(z, F) = 0 /\ Abs(z - x) <= F \div 2 + 1) /\ ((exact /\ Mod(Abs(x), F) = F \div 2) => Abs(z) = Abs(x) + F \div 2))
      [] op = "less" -> Each(a, y, LAMBDA x, z : (z \in {0, F}) /\ (x < p[1] => z = F) /\ (x > p[1] => z = 0) /\ ((exact /\ x = p[1]) => z = 0))
      [] op = "select" -> /\ SameShape(a, y) /\ \A n \in 1..Len(a.v) :
                               (Abs(y.v[n] - b.v[n]) <= 1 /\ (a.v[n] > p[1] \/ (~exact /\ a.v[n] = p[1]))) \/ (Abs(y.v[n] - c.v[n]) <= 1 /\ a.v[n] <= p[1])
      [] op = "autonorm" -> LET lo == SetMin(Vals(a)) hi == SetMax(Vals(a)) IN
                            Each(a, y, LAMBDA x, z : IF hi - lo <= 1 THEN TRUE ELSE Abs(z - Qu(x - lo, hi - lo)) <= 3 + (3 * F) \div (hi - lo))
      [] op = "autostd" -> Standardized(a, y)
      [] op = "inverse" -> a.r = y.r /\ a.c = y.c /\ a.k = y.k /\ Near(MatMul(a, y), Unit(a.r, a.k), 4)
      [] op = "matdiv" -> SameShape(a, y) /\ Near(MatMul(y, b), a, 4)
      [] op \in {"random", "xavier"} -> /\ y.r = p[1] /\ y.c = p[2] /\ y.k = p[3] /\ Len(y.v) = p[1] * p[2] * p[3]
                                        /\ \A n \in 1..Len(y.v) : y.v[n] >= p[4] - 1 /\ y.v[n] <= p[5] + 1
Right(op, a, b, c, p, exact, y) == IF op \in Formula THEN Close(y, Op(op, a, b, c, p)) ELSE Rel(op, a, b, c, p, exact, y)
\* whole tensor accessors
IdxOk(s, e, exact, better(_, _)) ==
    /\ e \in 0..(Len(s) - 1)
    /\ \A n \in 1..Len(s) : better(s[n], s[e + 1]) => (Abs(s[n] - s[e + 1]) <= 1 /\ ~exact)
    /\ (exact => \A n \in 1..e : s[n] # s[e + 1])
AllOk(s, l, exact, better(_, _)) ==
    /\ Len(l) > 0
    /\ \A i, j \in 1..Len(l) : i < j => l[i] < l[j]
    /\ \A i \in 1..Len(l) : IdxOk(s, l[i], FALSE, better)
    /\ exact => l = SelectSeq([n \in 1..Len(s) |-> n - 1], LAMBDA m : \A q \in 1..Len(s) : ~better(s[q], s[m + 1]))
RowOf(t, i, ch) == [j \in 1..t.c |-> At(t, i, j - 1, ch)]
ColOf(t, j, ch) == [i \in 1..t.r |-> At(t, i - 1, j, ch)]
TopOk(s, l, m, exact) == LET n == Min(m, Len(s)) IN
    /\ Len(l) = n
    /\ \A i, j \in 1..n : i # j => l[i] # l[j]
    /\ \A i \in 1..n : l[i] \in 0..(Len(s) - 1)
    /\ \A i \in 1..(n - 1) : s[l[i] + 1] >= s[l[i + 1] + 1]
    /\ \A q \in 1..Len(s) : (\A i \in 1..n : l[i] # q - 1) => (n = 0 \/ s[q] <= s[l[n] + 1])
\* squares at a tenth of the scale keep within 32 bits
SqSum(s) == Sum([i \in 1..Len(s) |-> (s[i] \div 10) * (s[i] \div 10)])
SqErr(s) == Sum([i \in 1..Len(s) |-> Abs(s[i]) \div 5 + 2])
StatsOk(t, e, exact, small) == LET n == Len(t.v) S == Vals(t) mean == Sum(t.v) \div n IN
    /\ Abs(e.sum - Sum(t.v)) <= n + 1
    /\ Abs(e.max - SetMax(S)) <= 1 /\ Abs(e.min - SetMin(S)) <= 1
    /\ e.lo = e.min /\ e.hi = e.max
    /\ Abs(e.maxabs - Max(SetMax(S), -SetMin(S))) <= 1
    /\ Abs(e.mean - mean) <= 2
    /\ small => LET d == [i \in 1..n |-> t.v[i] - mean] IN
         /\ Abs(e.var * n - SqSum(d) \div 10) <= n + 2 + SqErr(d) \div 10
         /\ Abs((e.dev \div 10) * (e.dev \div 10) - e.var * 10) <= e.dev \div 4 + 30
         /\ Abs((e.norm \div 10) * (e.norm \div 10) - SqSum(t.v)) <= SqErr(t.v) + e.norm \div 4 + 30
    /\ e.valid = TRUE
    /\ (exact => ((e.geo = -1) = (SetMin(S) <= 0)))
    /\ (e.geo >= 0 /\ n <= 3 /\ SetMax(S) <= 4000 /\ SetMin(S) >= 200) =>
         LET pw == IF n = 1 THEN e.geo ELSE IF n = 2 THEN Pr(e.geo, e.geo) ELSE Pr(Pr(e.geo, e.geo), e.geo)
             pd == IF n = 1 THEN t.v[1] ELSE IF n = 2 THEN Pr(t.v[1], t.v[2]) ELSE Pr(Pr(t.v[1], t.v[2]), t.v[3]) IN
         Abs(pw - pd) <= 30 + pd \div 100
    /\ (n <= 3 /\ SetMax(S) <= 4000 /\ SetMin(S) >= -4000) =>
         LET pd == IF n = 1 THEN t.v[1] ELSE IF n = 2 THEN Pr(t.v[1], t.v[2]) ELSE Pr(Pr(t.v[1], t.v[2]), t.v[3]) IN Abs(e.prod - pd) <= 30 + Abs(pd) \div 100
    /\ Len(e.rows) = t.r * t.k
    /\ \A q \in 1..(t.r * t.k) : LET i == Mod(q - 1, t.r) ch == (q - 1) \div t.r s == TLCEval(RowOf(t, i, ch)) IN
         /\ e.rows[q] = s
         /\ IdxOk(s, e.maxrow[q], exact, LAMBDA x, z : x > z) /\ IdxOk(s, e.minrow[q], exact, LAMBDA x, z : x < z)
         /\ AllOk(s, e.maxall[q], exact, LAMBDA x, z : x > z) /\ AllOk(s, e.minall[q], exact, LAMBDA x, z : x < z)
         /\ TopOk(s, e.top[q], e.m, exact)
    /\ \A q \in 1..(t.c * t.k) : LET j == Mod(q - 1, t.c) ch == (q - 1) \div t.c IN IdxOk(ColOf(t, j, ch), e.maxcol[q], exact, LAMBDA x, z : x > z)
====
