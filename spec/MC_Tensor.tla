---- MODULE MC_Tensor ----
(* laws of the operations, over every small tensor reached by applying them to one another *)
EXTENDS Tensor, FiniteSets
CONSTANTS Values, Shapes, MaxSteps
ValueSet == {-1000, 2000}
ShapeSet == {<<1, 2, 1>>, <<2, 2, 1>>, <<2, 1, 2>>}
VARIABLES t, u, n
V(x) == [x EXCEPT !.v = TLCEval([i \in 1..Len(x.v) |-> IF x.v[i][1] > 4 * F THEN 4 * F ELSE IF x.v[i][1] < -4 * F THEN -4 * F ELSE x.v[i][1]])]
Value(x) == [x EXCEPT !.v = TLCEval([i \in 1..Len(x.v) |-> x.v[i][1]])]
All == UNION {[r : {s[1]}, c : {s[2]}, k : {s[3]}, v : [1..(s[1] * s[2] * s[3]) -> Values]] : s \in Shapes}
Ops == {<<"transpose", <<>>>>, <<"rotate", <<>>>>, <<"abs", <<>>>>, <<"pad", <<1, 0, 0, 1>>>>, <<"sadd", <<F>>>>, <<"smul", <<-F>>>>, <<"rowflat", <<>>>>, <<"colflat", <<>>>>,
        <<"sumchannels", <<>>>>, <<"window", <<0, 1>>>>, <<"clip", <<-F, F>>>>, <<"reshape2", <<1, 2>>>>}
Init == t \in All /\ u \in {x \in All : x.r = t.r /\ x.c = t.c /\ x.k = t.k} /\ n = 0
Apply == /\ n < MaxSteps /\ n' = n + 1 /\ UNCHANGED u
         /\ \E o \in Ops : Applies(o[1], t, t, t, o[2]) = TRUE /\ Size(t) <= 6 /\ t' = V(Op(o[1], t, t, t, o[2]))
Next == Apply
Spec == Init /\ [][Next]_<<t, u, n>>
Tr(x) == Value(Op("transpose", x, x, x, <<>>))
Involutions == Tr(Tr(t)) = t /\ Rotate(Rotate(t)) = t
\* (A B)^T = B^T A^T
Product == (t.c = u.r /\ t.k = u.k) => Tr(Value(MatMul(t, u))) = Value(MatMul(Tr(u), Tr(t)))
Neutral == LET i == Unit(t.c, t.k) IN Value(MatMul(t, i)) = t
Commutes == SameShape(t, u) => /\ Value(Op("add", t, u, t, <<>>)) = Value(Op("add", u, t, t, <<>>))
                               /\ Value(Op("convolve", t, u, t, <<>>)) = Value(Op("convolve", u, t, t, <<>>))
\* a full cross correlation holds the valid one in its middle
Middle == (u.k = t.k /\ u.r <= t.r /\ u.c <= t.c) =>
    LET f == Value(Full(t, u)) w == Value(Valid(t, u)) IN
    \A i \in 0..(w.r - 1), j \in 0..(w.c - 1), ch \in 0..(w.k - 1) : At(f, i + u.r - 1, j + u.c - 1, ch) = At(w, i, j, ch)
SumKept == \A o \in {<<"transpose", <<>>>>, <<"rotate", <<>>>>, <<"rowflat", <<>>>>, <<"pad", <<1, 2, 0, 1>>>>, <<"sumchannels", <<>>>>} :
    Sum(Value(Op(o[1], t, t, t, o[2])).v) = Sum(t.v)
Shaped == Len(t.v) = Size(t)
====
