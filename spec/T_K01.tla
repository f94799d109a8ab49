---- MODULE T_K01 ----
EXTENDS Task, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad
E == Cases[c].ev[l]
\* a cell as the value it shows; a number that cannot be read is far from every number
Value(col, cell) == LET t == TLCEval(Strip(cell)) IN IF col.purpose = "L" THEN t ELSE IF t # <<>> /\ ValidNum(t) THEN Milli(t) ELSE Bad
RecordVals(cols, r) == TLCEval([i \in 1..Len(cols) |-> Decoded(cols[i], r.g[i])[1]])
ShownBy(cols, line) == TLCEval([k \in 1..Len(cols) |-> Value(cols[k], line[k])])
Header(cols, line) == \A k \in 1..Len(cols) : Strip(line[k]) = Strip(cols[k].name)
\* every record in order: what is predicted for it, then its own values
TableOk(t, st, lines) ==
    LET nx == Len(t.x) ng == Len(t.g) IN
    /\ Len(lines) = 1 + Len(st.rows)
    /\ \A r \in 1..Len(lines) : Len(lines[r]) = nx + ng
    /\ Header(t.x \o t.g, lines[1])
    /\ \A r \in 1..Len(st.rows) :
          LET vals == TLCEval(RecordVals(st.given, st.rows[r]))
              shown == TLCEval(ShownBy(t.x, lines[r + 1]))
              own == TLCEval(ShownBy(t.g, SubSeq(lines[r + 1], nx + 1, nx + ng)))
          IN /\ \A i \in 1..ng : IF t.g[i].purpose = "L" THEN own[i] = vals[i] ELSE Abs(own[i] - vals[i]) <= 20
             /\ AnswersAll(t, vals, shown)
\* the inputs of the user by column
Given(ins, col) == {i \in 1..Len(ins) : LowerCs(ins[i].key) = LowerCs(col.name)}
ValueOk(col, vals) == Len(vals) > 0 /\ IF col.purpose = "L" THEN vals[1] \in RangeOf(col.labels) ELSE Strip(vals[1]) # <<>> /\ ValidNum(Strip(vals[1]))
Suffices(t, ins) == \A i \in 1..Len(t.g) : \E k \in Given(ins, t.g[i]) : ValueOk(t.g[i], ins[k].vals)
InputVals(t, ins) == TLCEval([i \in 1..Len(t.g) |->
    LET k == CHOOSE k \in Given(ins, t.g[i]) : TRUE IN IF t.g[i].purpose = "L" THEN ins[k].vals[1] ELSE Milli(Strip(ins[k].vals[1]))])
AnswerOk(t, ins, lines) == /\ Len(lines) = 2
                           /\ \A r \in 1..2 : Len(lines[r]) = Len(t.x)
                           /\ Header(t.x, lines[1])
                           /\ AnswersAll(t, InputVals(t, ins), ShownBy(t.x, lines[2]))
Key == <<E.task, E.ds, E.ins>>
Failed == ~E.ok /\ E.said
\* columns of a task's metadata and of its dataset are the same
Bare(cols) == TLCEval([i \in 1..Len(cols) |-> cols[i]])
OwnMeta(ds) == E.meta.g = db[ds].st.given /\ E.meta.x = db[ds].st.expected
Only(n) == E.changed \in {<<>>, <<"tasks/" \o n>>}
Step == \/ E.e = "data" /\ db' = Put(db, E.name, [st |-> E.st, decls |-> <<>>, rows |-> <<>>]) /\ UNCHANGED <<tasks, memo>>
        \/ E.e = "plant" /\ E.loads /\ OwnMeta(E.ds) /\ PlantTask(E.task, E.ds, E.w)
        \/ E.e = "damage" /\ Damage(E.task, E.what)
        \* a name that is taken
        \/ /\ E.e = "task" /\ E.task \in DOMAIN tasks /\ tasks[E.task].state \in {"complete", "empty"}
           /\ ~E.threw /\ E.said /\ E.changed = <<>>
           /\ UNCHANGED <<db, tasks, memo>>
        \/ /\ E.e = "task" /\ ~(E.task \in DOMAIN tasks /\ tasks[E.task].state \in {"complete", "empty"})
           /\ E.type = "label" /\ Creatable(E.ds, E.test) = TRUE
           /\ ~E.threw /\ E.ok /\ Only(E.task) /\ E.loads /\ OwnMeta(E.ds)
           /\ CreateTask(E.task, E.ds)
        \/ /\ E.e = "task" /\ ~(E.task \in DOMAIN tasks /\ tasks[E.task].state \in {"complete", "empty"})
           /\ (E.type = "label" /\ Creatable(E.ds, E.test)) = FALSE
           /\ ~E.threw /\ Failed /\ Only(E.task) /\ (E.task \notin DOMAIN tasks => ~E.loads)
           /\ UNCHANGED <<db, tasks, memo>>
        \/ /\ E.e = "exec" /\ E.ins = <<>>
           /\ CanExecute(E.task, E.ds) = TRUE
           /\ ~E.threw /\ E.ok /\ E.changed = <<>>
           /\ TableOk(tasks[E.task], db[E.ds].st, E.lines) = TRUE
           /\ Stays(Key, E.lines) = TRUE
           /\ memo' = Put(memo, Key, E.lines) /\ UNCHANGED <<db, tasks>>
        \/ /\ E.e = "exec" /\ E.ins = <<>>
           /\ CanExecute(E.task, E.ds) = FALSE
           /\ ~E.threw /\ Failed /\ E.changed = <<>>
           /\ UNCHANGED <<db, tasks, memo>>
        \/ /\ E.e = "exec" /\ E.ins # <<>>
           /\ (Complete(E.task) /\ Suffices(tasks[E.task], E.ins)) = TRUE
           /\ ~E.threw /\ E.ok /\ E.changed = <<>>
           /\ AnswerOk(tasks[E.task], E.ins, E.lines) = TRUE
           /\ Stays(Key, E.lines) = TRUE
           /\ memo' = Put(memo, Key, E.lines) /\ UNCHANGED <<db, tasks>>
        \/ /\ E.e = "exec" /\ E.ins # <<>>
           /\ (Complete(E.task) /\ Suffices(tasks[E.task], E.ins)) = FALSE
           /\ ~E.threw /\ Failed /\ E.changed = <<>>
           /\ UNCHANGED <<db, tasks, memo>>
        \/ E.e = "done" /\ UNCHANGED <<db, tasks, memo>>
More == ~bad /\ l <= Len(Cases[c].ev)
Init == KInit /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<db, tasks, memo, c, l>>
Spec == Init /\ [][Next]_<<db, tasks, memo, c, l, bad>>
====
