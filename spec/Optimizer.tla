----------------------------- MODULE Optimizer -----------------------------
(* The update rules, element by element, in fixed point.                                     *)
(* Units: rates 1e-7, steps and momentum 1e-6 (first moments 1e-7, second moments 1e-9).      *)
(* A parameter is a registered weight or bias; every element of it has a state of its own.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Abs(x) == IF x < 0 THEN 0 - x ELSE x
\* division rounding towards zero
Div(x, y) == IF x >= 0 THEN x \div y ELSE 0 - ((0 - x) \div y)
RECURSIVE Root(_, _, _)
\* integer square root of x between lo and hi
Root(x, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m <= x \div m THEN Root(x, m, hi) ELSE Root(x, lo, m)
Sqrt(x) == IF x = 0 THEN 0 ELSE Root(x, 1, 46341)
Fresh == [m |-> 0, v |-> 0]
\* first over root of second moment, in 1e-5
Ratio(t) == IF t.v = 0 THEN 0 ELSE Div(Div(t.m * 50, Sqrt(t.v)) * 6325, 1000)
\* a*b/1000 for a ratio b in 1e-5 without leaving 32 bits
Scale(a, b) == Div(a * Div(b, 100), 1000) + Div(a * (b - 100 * Div(b, 100)), 100000)
\* state after a gradient g with rate r, and the step (what is subtracted)
After(rule, s, g, r) == CASE rule = "sgd" -> s
                          [] rule = "sgdm" -> [m |-> Div(9 * s.m, 10) + Div(r * g, 10), v |-> 0]
                          [] rule = "adam" -> [m |-> Div(9 * s.m, 10) + 1000000 * g, v |-> s.v - (s.v \div 1000) + g * g * 1000000]
StepOf(rule, t, g, r) == CASE rule = "sgd" -> Div(r * g, 10)
                           [] rule = "sgdm" -> t.m
                           [] rule = "adam" -> Scale(Div(r, 10), Ratio(t))
Slack(rule, x) == CASE rule = "sgd" -> 3 + Abs(x) \div 2000
                    [] rule = "sgdm" -> 14 + Abs(x) \div 2000
                    [] rule = "adam" -> 8 + Abs(x) \div 80
RECURSIVE Fold(_, _, _)
Fold(rule, gs, r) == IF gs = <<>> THEN Fresh ELSE After(rule, Fold(rule, SubSeq(gs, 1, Len(gs) - 1), r), gs[Len(gs)], r)
=============================================================================
