------------------------------- MODULE Dataset -------------------------------
(* What a created dataset must hold, in terms of the source records and the column         *)
(* declarations.  Numbers are in thousandths; sources use multiples of one half.           *)
EXTENDS Numerals, TLC

-----------------------------------------------------------------------------
(* a declaration is a sequence of [use, type, name, start, rows, cols, ch]; a record a sequence of cells *)
Width(d) == d.rows * d.cols * d.ch
Overlap(ds) == \E i, j \in 1..Len(ds) : i # j /\ ds[i].start <= ds[j].start /\ ds[j].start <= ds[i].start + Width(ds[i]) - 1
Of(ds, use) == SetToSortSeq({ds[i] : i \in {j \in 1..Len(ds) : ds[j].use = use}}, LAMBDA a, b : a.start < b.start)
Known == {"label", "number", "image"}
CellOk(d, t) == d.type = "label" \/ ValidNum(Strip(t))
Fits(ds, r) == \A i \in 1..Len(ds) : /\ ds[i].start + Width(ds[i]) <= Len(r)
                                     /\ \A k \in 1..Width(ds[i]) : CellOk(ds[i], r[ds[i].start + k])
Usable(ds, src) == /\ ~Overlap(ds)
                   /\ \E i \in 1..Len(ds) : ds[i].use = "given"
                   /\ \A i \in 1..Len(ds) : ds[i].type \in Known /\ ds[i].use \in {"given", "expected"} /\ Width(ds[i]) > 0
                   /\ src.supported /\ src.exists
                   /\ Len(src.rows) > 0
                   /\ \A i \in 1..Len(src.rows) : Fits(ds, src.rows[i])
\* a row that is blank in the one selected column is an empty line, not a record
Blank(ds, r) == Len(ds) = 1 /\ Width(ds[1]) = 1 /\ ds[1].start < Len(r) /\ Strip(r[ds[1].start + 1]) = <<>>
DataRows(ds, rows) == SelectSeq(rows, LAMBDA r : ~Blank(ds, r))
ColValue(d, r) == TLCEval(IF d.type = "label" THEN [k \in 1..Width(d) |-> Strip(r[d.start + k])]
                          ELSE [k \in 1..Width(d) |-> Milli(TLCEval(Strip(r[d.start + k])))])
Part(ds, r) == TLCEval([i \in 1..Len(ds) |-> ColValue(ds[i], r)])

-----------------------------------------------------------------------------
(* a stored column [name, purpose, shape, labels, std, norm, mean, sd, min, max] and its cells as recorded *)
Bad == -999999999
Abs(x) == IF x < 0 THEN -x ELSE x
Snap(v) == LET q == IF v >= 0 THEN ((v + 250) \div 500) * 500 ELSE -(((-v + 250) \div 500) * 500)
           IN IF Abs(v) < 100000000 /\ Abs(v - q) <= 20 THEN q ELSE Bad
Decoded(col, cell) ==
    CASE col.purpose = "N" -> [k \in 1..Len(cell) |-> Snap(cell[k])]
      [] col.purpose = "I" -> [k \in 1..Len(cell) |-> cell[k] * 1000]
      [] col.purpose = "L" ->
            \* one row of the tensor for each source column
            [k \in 1..col.shape[1] |->
                LET w == col.shape[2]
                    one == {j \in 1..w : cell[(k - 1) * w + j] = 4}
                    zero == {j \in 1..w : cell[(k - 1) * w + j] = 0}
                IN IF Cardinality(one) = 1 /\ Cardinality(zero) = w - 1 THEN col.labels[CHOOSE j \in one : TRUE] ELSE <<Bad>>]
      [] OTHER -> <<Bad>>
DecodedPart(cols, cells) == TLCEval([i \in 1..Len(cols) |-> Decoded(cols[i], cells[i])])
Purpose(d) == CASE d.type = "label" -> "L" [] d.type = "number" -> "N" [] d.type = "image" -> "I"
NoDup(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
ColumnsAsDeclared(cols, ds, rows) ==
    /\ Len(cols) = Len(ds)
    /\ \A i \in 1..Len(ds) :
         /\ cols[i].name = ds[i].name
         /\ cols[i].purpose = Purpose(ds[i])
         /\ IF ds[i].type = "label"
            THEN /\ NoDup(cols[i].labels)
                 /\ {cols[i].labels[k] : k \in 1..Len(cols[i].labels)} = {ColValue(ds[i], rows[r])[1] : r \in 1..Len(rows)}
                 /\ cols[i].shape = <<ds[i].rows, Len(cols[i].labels), 1>>
            ELSE cols[i].shape = <<ds[i].rows, ds[i].cols, ds[i].ch>>
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Holds(st, decls, rows) ==
    LET g == TLCEval(Of(decls, "given")) x == TLCEval(Of(decls, "expected")) n == Len(st.rows)
        dec == TLCEval([i \in 1..n |-> [g |-> DecodedPart(st.given, st.rows[i].g), x |-> DecodedPart(st.expected, st.rows[i].x)]])
        want == TLCEval({[g |-> Part(g, rows[r]), x |-> Part(x, rows[r])] : r \in 1..Len(rows)})
    IN /\ ColumnsAsDeclared(st.given, g, rows)
       /\ ColumnsAsDeclared(st.expected, x, rows)
       /\ \A i \in 1..n : dec[i] \in want
       /\ {dec[i].g : i \in 1..n} = {w.g : w \in want}
       /\ Cardinality({dec[i].g : i \in 1..n}) = n

-----------------------------------------------------------------------------
(* statistics, exact: values are half units u, n of them *)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(TLCEval(Tail(s)))
ColCells(st, side, i) == TLCEval(IF side = "g" THEN [r \in 1..Len(st.rows) |-> Decoded(st.given[i], st.rows[r].g[i])]
                         ELSE [r \in 1..Len(st.rows) |-> Decoded(st.expected[i], st.rows[r].x[i])])
NumbersOk(col, cells) ==
    LET v == TLCEval(Flatten(cells))
        n == Len(v)
        u == TLCEval([k \in 1..n |-> v[k] \div 500])
        s == TLCEval(Sum(u))
        V == TLCEval(n * Sum(TLCEval([k \in 1..n |-> u[k] * u[k]])) - s * s)     \* n^2 * variance in half units
        lo == CHOOSE k \in RangeOf(v) : \A j \in RangeOf(v) : k <= j
        hi == CHOOSE k \in RangeOf(v) : \A j \in RangeOf(v) : k >= j
    IN /\ Bad \notin RangeOf(v)
       /\ col.norm
       /\ col.min = lo /\ col.max = hi
       /\ Abs(col.mean * n * 2 - 1000 * s) <= 2 * n                              \* mean in thousandths
       /\ (2 * col.sd - 1) * (2 * col.sd - 1) * n * n <= 2500 * V \/ col.sd = 0   \* sd in fiftieths: sd50 = 25 * sqrt(V)/n
       /\ 2500 * V <= (2 * col.sd + 1) * (2 * col.sd + 1) * n * n
       /\ (V > 4 * n * n => col.std)
       /\ (V < 4 * n * n \/ (V = 4 * n * n /\ n = 2) => ~col.std)
ScalingOk(st) ==
    /\ \A i \in 1..Len(st.given) : IF st.given[i].purpose = "N" THEN NumbersOk(st.given[i], ColCells(st, "g", i))
                                   ELSE ~st.given[i].norm /\ ~st.given[i].std
    /\ \A i \in 1..Len(st.expected) : IF st.expected[i].purpose = "N" THEN NumbersOk(st.expected[i], ColCells(st, "x", i))
                                      ELSE ~st.expected[i].norm /\ ~st.expected[i].std
\* the code's own decoders give back what the cells stand for
DecodersAgree(st) ==
    \A r \in 1..Len(st.rows) :
       /\ \A i \in 1..Len(st.given) : st.given[i].purpose = "N" =>
             [k \in 1..Len(st.rows[r].gd[i]) |-> Snap(st.rows[r].gd[i][k])] = Decoded(st.given[i], st.rows[r].g[i])
       /\ \A i \in 1..Len(st.expected) : st.expected[i].purpose = "N" =>
             [k \in 1..Len(st.rows[r].xd[i]) |-> Snap(st.rows[r].xd[i][k])] = Decoded(st.expected[i], st.rows[r].x[i])

-----------------------------------------------------------------------------
VARIABLE db        \* dataset name -> [st: the stored dataset as first observed, decls, rows]
DInit == db = <<>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
CreateOk(name, decls, src, st) ==
    /\ name \notin DOMAIN db
    /\ Usable(decls, src) = TRUE
    /\ Holds(st, decls, DataRows(decls, src.rows)) = TRUE
    /\ db' = Put(db, name, [st |-> st, decls |-> decls, rows |-> DataRows(decls, src.rows)])
\* nothing is created: the declaration is unusable, or the name is taken
CreateRefused(name, decls, src) == (name \in DOMAIN db \/ ~Usable(decls, src)) = TRUE /\ UNCHANGED db
Same(name, st) == name \in DOMAIN db /\ st = db[name].st /\ UNCHANGED db
=============================================================================
