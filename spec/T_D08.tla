---- MODULE T_D08 ----
EXTENDS Dataset, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
Seps == {32, 40, 41, 44, 91, 93}
RECURSIVE Toks(_, _, _)
Toks(s, i, cur) == IF i > Len(s) THEN IF cur = <<>> THEN <<>> ELSE <<cur>>
                   ELSE IF s[i] \in Seps THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>) \o Toks(s, i + 1, <<>>)
                   ELSE Toks(s, i + 1, Append(cur, s[i]))
Numbers(s) == TLCEval(Toks(s, 1, <<>>))
Col(m, side, i) == [m |-> m, side |-> side, i |-> i]
Columns(st) == [i \in 1..Len(st.expected) |-> Col(st.expected[i], "x", i)] \o [i \in 1..Len(st.given) |-> Col(st.given[i], "g", i)]
Height(m, raw) == IF raw \/ m.purpose = "N" THEN m.shape[1] ELSE IF m.purpose = "I" THEN (m.shape[1] + 1) \div 2 ELSE 1
\* the elements of tensor row h in printing order; elements are recorded channel by channel
RowElems(m, v, h) == [k \in 1..m.shape[2] * m.shape[3] |->
                        LET col == (k - 1) \div m.shape[3] + 1 ch == k - (col - 1) * m.shape[3]
                        IN v[(ch - 1) * m.shape[1] * m.shape[2] + (h - 1) * m.shape[2] + col]]
CellShows(col, e, st, r, h, t) ==
    LET raws == IF col.side = "g" THEN e.rawg[r][col.i] ELSE e.rawx[r][col.i]
        cell == IF col.side = "g" THEN st.rows[r].g[col.i] ELSE st.rows[r].x[col.i]
        nums == Numbers(t)
    IN IF h > Height(col.m, e.raw) THEN Strip(t) = <<>>
       ELSE IF e.raw
       THEN LET want == RowElems(col.m, raws, h)
            IN Len(nums) = Len(want) /\ \A k \in 1..Len(want) : nums[k] # <<>> /\ ValidNum(nums[k]) /\ Abs(Milli(nums[k]) - want[k]) <= 1
       ELSE IF col.m.purpose = "N"
       THEN LET want == RowElems(col.m, Decoded(col.m, cell), h)
            IN Len(nums) = Len(want) /\ \A k \in 1..Len(want) : nums[k] # <<>> /\ ValidNum(nums[k]) /\ Abs(Milli(nums[k]) - want[k]) <= 20
       ELSE IF col.m.purpose = "L" THEN Strip(t) = Decoded(col.m, cell)[1]
       ELSE TRUE
PrintOk(e, st) ==
    LET cols == TLCEval(Columns(st))
        n == IF e.limit < 0 \/ e.limit > Len(st.rows) THEN Len(st.rows) ELSE e.limit
        hs == {Height(cols[i].m, e.raw) : i \in 1..Len(cols)}
        H == CHOOSE x \in hs : \A y \in hs : y <= x
    IN IF n = 0 THEN Len(e.lines) <= 1
       ELSE /\ Len(e.lines) = 1 + n * H
            /\ Len(e.lines[1]) = Len(cols)
            /\ \A i \in 1..Len(cols) : Strip(e.lines[1][i]) = Strip(cols[i].m.name)
            /\ \A r \in 1..n, h \in 1..H :
                 LET line == e.lines[1 + (r - 1) * H + h]
                 IN Len(line) = Len(cols) /\ \A i \in 1..Len(cols) : CellShows(cols[i], e, st, r, h, line[i])
Step == \/ E.e = "create" /\ E.ok /\ E.stored /\ UNCHANGED db
        \/ E.e = "show" /\ E.name \notin DOMAIN db /\ db' = Put(db, E.name, [st |-> E.st, decls |-> <<>>, rows |-> <<>>])
        \/ E.e = "show" /\ Same(E.name, E.st)
        \/ E.e = "print" /\ ~E.threw /\ PrintOk(E, db[E.name].st) = TRUE /\ UNCHANGED db
        \/ E.e = "done" /\ UNCHANGED db
More == ~bad /\ l <= Len(Cases[c].ev)
Init == DInit /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<db, c, l>>
Spec == Init /\ [][Next]_<<db, c, l, bad>>
====
