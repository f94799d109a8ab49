-------------------------------- MODULE Task --------------------------------
(* Tasks: what creating one leaves behind and what executing one answers.                  *)
(* A task remembers the columns of the dataset it was trained with (g, x) and, if they are *)
(* known, the weights w of its network: w[k][j][o] leads from input j to output o of the   *)
(* expected column k.  Inputs and outputs are in ten thousandths, source numbers in        *)
(* thousandths.  w = <<>> : a trained network, whose weights the specification leaves open.*)
EXTENDS Dataset
VARIABLES tasks, memo   \* name -> [state, g, x, w];  what an input was answered before

UpTo(a, n) == [i \in 1..n |-> a[i]]
LowerCh(ch) == IF ch >= 65 /\ ch <= 90 THEN ch + 32 ELSE ch
LowerCs(s) == [i \in 1..Len(s) |-> LowerCh(s[i])]
SameColumn(a, b) == /\ LowerCs(a.name) = LowerCs(b.name)
                    /\ a.purpose = b.purpose
                    /\ a.purpose = "L" => RangeOf(b.labels) \subseteq RangeOf(a.labels)
\* a dataset with columns d can be read as if it had the columns t
Readable(t, d) == Len(t) = Len(d) /\ \A i \in 1..Len(t) : SameColumn(t[i], d[i])

-----------------------------------------------------------------------------
(* the inputs of the network for the values of the given columns, and how exact they are *)
IndexOf(x, s) == CHOOSE i \in 1..Len(s) : s[i] = x
Z(col, x) == IF col.std THEN ((x - col.mean) * 1000) \div col.dev ELSE x
\* a column in which all values are the same is moved to zero, but not scaled
EncN(col, x) == CASE col.norm /\ col.max # col.min -> ((Z(col, x) - col.min) * 10000) \div (col.max - col.min)
                  [] col.norm /\ col.max = col.min -> (Z(col, x) - col.min) * 10
                  [] OTHER -> Z(col, x) * 10
EncErr(col) == IF col.purpose = "L" THEN 0 ELSE IF col.norm /\ col.max = col.min THEN 20 ELSE 10 + 60000 \div Max2(1, col.max - col.min)
Enc(col, val) == IF col.purpose = "L" THEN [k \in 1..Len(col.labels) |-> IF col.labels[k] = val THEN 10000 ELSE 0] ELSE <<EncN(col, val)>>
\* vals[i]: the text of a label or a number
Inputs(cols, vals) == TLCEval(Flatten(TLCEval([i \in 1..Len(cols) |-> Enc(cols[i], vals[i])])))
InErrs(cols) == TLCEval(Flatten(TLCEval([i \in 1..Len(cols) |-> [k \in 1..(IF cols[i].purpose = "L" THEN Len(cols[i].labels) ELSE 1) |-> EncErr(cols[i])]])))
Output(w, e, o) == TLCEval(Sum(TLCEval([j \in 1..Len(e) |-> w[j][o] * e[j]])))
OutErr(w, es, o) == TLCEval(5 + Sum(TLCEval([j \in 1..Len(es) |-> Abs(w[j][o]) * es[j]])))
\* a prediction for a number is its value before scaling
Scaled(a, b, q) == (a \div q) * b + ((a - (a \div q) * q) * b) \div q          \* a * b / q
DecN(col, y) == LET z == IF col.norm /\ col.max = col.min THEN y \div 10 + col.min ELSE IF col.norm THEN Scaled(y, col.max - col.min, 10000) + col.min ELSE y \div 10
                IN IF col.std THEN Scaled(z, col.dev, 1000) + col.mean ELSE z
DecErr(col, err) == IF col.norm /\ col.max = col.min /\ ~col.std THEN 20 + err \div 5 ELSE 60 + (((err \div 5 + 1) * ((col.max - col.min) \div 10 + 1)) \div 50) * (IF col.std THEN col.dev \div 500 + 1 ELSE 1)
                       + (IF col.std THEN col.dev \div 20 ELSE 0)
\* may the network answer shown (a label's text or a number) for the expected column col?
Answers(col, w, e, es, shown) ==
    IF col.purpose = "L"
    THEN LET y == TLCEval([o \in 1..Len(col.labels) |-> Output(w, e, o)])
             d == TLCEval([o \in 1..Len(col.labels) |-> OutErr(w, es, o)])
         IN \E o \in 1..Len(col.labels) : col.labels[o] = shown /\ \A p \in 1..Len(col.labels) : y[o] + d[o] >= y[p] - d[p]
    ELSE Abs(shown - DecN(col, Output(w, e, 1))) <= DecErr(col, OutErr(w, es, 1))
AnswersAll(t, vals, shown) ==
    LET e == TLCEval(Inputs(t.g, vals)) es == TLCEval(InErrs(t.g))
    IN \A k \in 1..Len(t.x) : IF t.w = <<>> THEN t.x[k].purpose = "L" => shown[k] \in RangeOf(t.x[k].labels)
                              ELSE Answers(t.x[k], t.w[k], e, es, shown[k])
\* what the answer to an input was, once given, it stays
Stays(key, shown) == key \in DOMAIN memo => memo[key] = shown

-----------------------------------------------------------------------------
KInit == DInit /\ tasks = <<>> /\ memo = <<>>
Complete(n) == n \in DOMAIN tasks /\ tasks[n].state = "complete"
\* creating: only with datasets that exist, the test set readable under the training set's columns
Creatable(ds, test) == /\ ds \in DOMAIN db
                       /\ test = "" \/ (test \in DOMAIN db /\ Readable(db[ds].st.given, db[test].st.given) /\ Readable(db[ds].st.expected, db[test].st.expected))
CreateTask(n, ds) == /\ ~(n \in DOMAIN tasks /\ tasks[n].state = "complete")
                     /\ tasks' = Put(tasks, n, [state |-> "complete", g |-> db[ds].st.given, x |-> db[ds].st.expected, w |-> <<>>])
                     /\ memo' = [k \in {q \in DOMAIN memo : q[1] # n} |-> memo[k]]
                     /\ UNCHANGED db
PlantTask(n, ds, w) == /\ n \notin DOMAIN tasks
                       /\ tasks' = Put(tasks, n, [state |-> "complete", g |-> db[ds].st.given, x |-> db[ds].st.expected, w |-> w])
                       /\ UNCHANGED <<db, memo>>
\* the user damages a task: it cannot be executed; without its metadata or its configuration it may be created again
Damage(n, what) == /\ n \in DOMAIN tasks
                   /\ tasks' = [tasks EXCEPT ![n].state = IF what = "knowledge" /\ tasks[n].state = "complete" THEN "empty" ELSE "partial"]
                   /\ UNCHANGED <<db, memo>>
CanExecute(n, ds) == Complete(n) = TRUE /\ ds \in DOMAIN db /\ Readable(tasks[n].g, db[ds].st.given) = TRUE
=============================================================================
