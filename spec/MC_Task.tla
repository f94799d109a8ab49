------------------------------ MODULE MC_Task ------------------------------
(* Histories of creating, planting, damaging and executing over two datasets whose labels *)
(* are numbered in opposite order and whose numbers are scaled differently.               *)
EXTENDS Task
VARIABLES answers          \* what was answered: <<task, values of the record, answer, dataset>>
A == <<97>>
B == <<98>>
Lab(n, ls) == [name |-> n, purpose |-> "L", labels |-> ls, std |-> FALSE, norm |-> FALSE, mean |-> 0, dev |-> 0, min |-> 0, max |-> 0]
Num(n, lo, hi) == [name |-> n, purpose |-> "N", labels |-> <<>>, std |-> FALSE, norm |-> TRUE, mean |-> 0, dev |-> 0, min |-> lo, max |-> hi]
Names == {"f", "g", "h"}
K == <<75>>
KLow == <<107>>
Q == <<81>>
DB == [f |-> [st |-> [given |-> <<Lab(K, <<A, B>>), Num(Q, 0, 4000)>>, expected |-> <<Lab(<<80>>, <<A, B>>)>>,
                      vals |-> <<<<A, 0>>, <<B, 2000>>, <<A, 4000>>>>]],
       g |-> [st |-> [given |-> <<Lab(KLow, <<B, A>>), Num(Q, 2000, 3000)>>, expected |-> <<Lab(<<80>>, <<B, A>>)>>,
                      vals |-> <<<<B, 2000>>, <<A, 3000>>>>]],
       h |-> [st |-> [given |-> <<Lab(K, <<A, <<99>>>>), Num(Q, 0, 1000)>>, expected |-> <<Lab(<<80>>, <<A, B>>)>>,
                      vals |-> <<<<<<99>>, 0>>>>]]]
Ws == {<<<<<<1, 0>>, <<0, 1>>, <<1, 0>>>>>>, <<<<<<0, 2>>, <<1, 0>>, <<1, -1>>>>>>}
TaskNames == {"s", "t"}
\* the exact answer of a known network
Best(t, vals) == LET e == TLCEval(Inputs(t.g, vals))
                     y == TLCEval([o \in 1..2 |-> Output(t.w[1], e, o)])
                 IN t.x[1].labels[CHOOSE o \in 1..2 : \A p \in 1..2 : y[o] > y[p] \/ (y[o] = y[p] /\ o <= p)]
vars == <<db, tasks, memo, answers>>
Init == db = DB /\ tasks = <<>> /\ memo = <<>> /\ answers = {}
Create == \E n \in TaskNames, d \in Names : Creatable(d, "") = TRUE /\ CreateTask(n, d) /\ UNCHANGED answers
Plant == \E n \in TaskNames, d \in Names, w \in Ws : PlantTask(n, d, w) /\ UNCHANGED answers
Harm == \E n \in TaskNames, k \in {"meta", "knowledge"} : Damage(n, k) /\ answers' = {x \in answers : x[1] # n}
Exec == \E n \in TaskNames, d \in Names :
          /\ CanExecute(n, d) = TRUE
          /\ tasks[n].w # <<>>
          /\ \A r \in 1..Len(DB[d].st.vals) : AnswersAll(tasks[n], DB[d].st.vals[r], <<Best(tasks[n], DB[d].st.vals[r])>>) = TRUE
          /\ answers' = answers \cup {<<n, DB[d].st.vals[r], Best(tasks[n], DB[d].st.vals[r]), d>> : r \in 1..Len(DB[d].st.vals)}
          /\ UNCHANGED <<db, tasks, memo>>
Next == Create \/ Plant \/ Harm \/ Exec
Spec == Init /\ [][Next]_vars
\* however the executed dataset numbers its labels and scales its numbers, a task answers the same values alike
SameAnswer == \A x, y \in answers : x[1] = y[1] /\ x[2] = y[2] => x[3] = y[3]
\* it knows every label it is asked about and answers with one of its own
OwnLabels == \A x \in answers : /\ x[3] \in RangeOf(tasks[x[1]].x[1].labels)
                                /\ x[2][1] \in RangeOf(tasks[x[1]].g[1].labels)
\* a complete task keeps its columns and weights whatever else happens
Kept == [][\A n \in DOMAIN tasks : tasks[n].state = "complete" => n \in DOMAIN tasks' /\ tasks'[n].g = tasks[n].g /\ tasks'[n].x = tasks[n].x /\ tasks'[n].w = tasks[n].w]_vars
DatasetsKept == db = DB
=============================================================================
