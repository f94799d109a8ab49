---- MODULE T_N05 ----
(* upd: parameter p (its registration: kind "w" or "b") got gradients g, moved by d (1e-6);    *)
(*      rb, ra: the rate (1e-7) the optimizer reports before and after; tick: an epoch begins. *)
(* layer: a layer saw inputs x and errors e, record by record, then was updated once;          *)
(*      d holds what each of its parameters moved by.                                          *)
EXTENDS Optimizer, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, st, now, moved   \* st: parameter -> element states; now: epochs begun; moved: kind -> epoch its rate last changed in
K == Cases[c]
E == K.ev[l]
Rule == K.rule
Of(p, n) == IF p \in DOMAIN st THEN st[p] ELSE [i \in 1..n |-> Fresh]
Fits(s, g, d, r) == \A i \in 1..Len(g) : LET x == TLCEval(StepOf(Rule, TLCEval(After(Rule, s[i], g[i], r)), g[i], r)) IN Abs(d[i] - x) <= Slack(Rule, x)
Initial(kind) == IF kind = "w" THEN K.lr ELSE K.blr
Near(a, b) == Abs(a - b) <= 1 + b \div 100000
RateOk(kind, rb, ra) ==
    IF ~K.decay THEN Near(rb, Initial(kind)) /\ Near(ra, Initial(kind))
    ELSE /\ (rb # ra => now > 1 /\ moved[kind] < now /\ ra >= 99 /\ ra <= 1000001)
         /\ (moved[kind] = 0 => Near(rb, Initial(kind)))
Known(p) == p \in DOMAIN st
Upd == /\ E.e = "upd" /\ Len(E.d) = Len(E.g)
       /\ RateOk(E.kind, E.rb, E.ra) = TRUE
       /\ LET s == TLCEval(Of(E.p, Len(E.g)))
              fb == TLCEval(Fits(s, E.g, E.d, E.rb))
              r == IF fb THEN E.rb ELSE E.ra
          IN (fb \/ Fits(s, E.g, E.d, E.ra)) /\ st' = (E.p :> [i \in 1..Len(E.g) |-> After(Rule, s[i], E.g[i], r)]) @@ st
       /\ moved' = (IF E.rb # E.ra THEN [moved EXCEPT ![E.kind] = now] ELSE moved) /\ UNCHANGED now
Tick == E.e = "tick" /\ now' = now + 1 /\ UNCHANGED <<st, moved>>
RECURSIVE Products(_, _, _, _)
\* sum over the records of input i * error j
Products(x, e, i, j) == IF x = <<>> THEN 0 ELSE x[1][i] * e[1][j] + Products(Tail(x), Tail(e), i, j)
RECURSIVE Errors(_, _)
Errors(e, j) == IF e = <<>> THEN 0 ELSE e[1][j] + Errors(Tail(e), j)
\* the averaged gradients of parameter f of a layer: conv (kernel as large as the input): one parameter per filter;
\* full: one parameter, inputs by outputs; bias: one parameter
Grad(f) == LET n == Len(E.x) a == Len(E.x[1]) b == Len(E.err[1]) IN
    CASE K.layer = "conv" -> [i \in 1..a |-> Div(Products(E.x, E.err, i, f), n)]
      [] K.layer = "full" -> [k \in 1..(a * b) |-> Div(Products(E.x, E.err, 1 + ((k - 1) \div b), 1 + (k - 1) - b * ((k - 1) \div b)), n)]
      [] K.layer = "bias" -> [j \in 1..b |-> Div(Errors(E.err, j), n)]
Layer == /\ E.e = "layer" /\ Len(E.d) = K.params
         /\ LET g == TLCEval([f \in 1..K.params |-> Grad(f)])
                s == TLCEval([f \in 1..K.params |-> Of(f, Len(g[f]))]) IN
            /\ (\A f \in 1..K.params : Len(E.d[f]) = Len(g[f]) /\ Fits(s[f], g[f], E.d[f], E.rate)) = TRUE
            /\ st' = [f \in 1..K.params |-> [i \in 1..Len(g[f]) |-> After(Rule, s[f][i], g[f][i], E.rate)]]
         /\ UNCHANGED <<now, moved>>
Step == Upd \/ Tick \/ Layer
More == ~bad /\ l <= Len(K.ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ st = <<>> /\ now = 0 /\ moved = [w |-> 0, b |-> 0]
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, st, now, moved>>
Spec == Init /\ [][Next]_<<c, l, bad, st, now, moved>>
====
