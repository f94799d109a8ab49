---- MODULE MC_DelimText ----
(* Exhaustive: every record list over short cells survives writing and reading, one character at a time. *)
EXTENDS DelimText, TLC
CONSTANTS Alpha, MaxCell, Delims
Cells == UNION {[1..n -> Alpha] : n \in 0..MaxCell}
Good == {w \in Cells : Strip(w) = w}
Small == {w \in Good : Len(w) <= 1}
VARIABLES recs, d, todo, s
vars == <<recs, d, todo, s>>
Init == /\ d \in Delims
        /\ \/ recs \in {<<<<w>>>> : w \in Good}
           \/ recs \in {<<<<w, x>>>> : w \in Small, x \in Good}
           \/ recs \in {<<<<w>>, <<x, w>>>> : w \in Small, x \in Small}
        /\ todo = Write(recs, d) /\ s = S0
Eat == todo # <<>> /\ s' = Char(s, Head(todo), d) /\ todo' = Tail(todo) /\ UNCHANGED <<recs, d>>
Spec == Init /\ [][Eat]_vars
RoundTrip == todo = <<>> => s.recs = recs /\ ~s.inq /\ ~s.open
NeverAhead == Len(s.recs) <= Len(recs)
====
