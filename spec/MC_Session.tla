----------------------------- MODULE MC_Session -----------------------------
(* The small-step machine of nested blocks against the definitions of Session.tla: every     *)
(* program of at most MaxSize statements nested two deep, every outcome.                      *)
EXTENDS Session
CONSTANTS MaxLen, MaxSub
Outcomes == {"ok", "fail", "exit", "throw"}
Leaf(r) == [leaf |-> TRUE, r |-> r, sub |-> <<>>]
Leaves == {Leaf(r) : r \in Outcomes}
Nested == {[leaf |-> FALSE, r |-> "ok", sub |-> s] : s \in UNION {[1..n -> Leaves] : n \in 0..MaxSub}}
Programs == UNION {[1..n -> Leaves \cup Nested] : n \in 0..MaxLen}
VARIABLES prog, stack, next, log, r
vars == <<prog, stack, next, log, r>>
Init == prog \in Programs /\ stack = <<prog>> /\ next = 1 /\ log = <<>> /\ r = "running"
Top == stack[Len(stack)]
Rest(st) == SubSeq(st, 1, Len(st) - 1)
Enter == /\ r = "running" /\ stack # <<>> /\ Top # <<>> /\ ~Top[1].leaf
         /\ stack' = Append(Append(Rest(stack), Tail(Top)), Top[1].sub) /\ UNCHANGED <<prog, next, log, r>>
Execute == /\ r = "running" /\ stack # <<>> /\ Top # <<>> /\ Top[1].leaf
           /\ log' = Append(log, next) /\ next' = next + 1
           /\ r' = (IF Top[1].r = "ok" THEN "running" ELSE Top[1].r)
           /\ stack' = Append(Rest(stack), Tail(Top)) /\ UNCHANGED prog
Leave == r = "running" /\ stack # <<>> /\ Top = <<>> /\ stack' = Rest(stack) /\ UNCHANGED <<prog, next, log, r>>
Finish == r = "running" /\ stack = <<>> /\ r' = "ok" /\ UNCHANGED <<prog, stack, next, log>>
Next == Enter \/ Execute \/ Leave \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InOrder == \A i \in 1..Len(log) : log[i] = i
Agrees == r # "running" => RunAll(prog, 1) = [log |-> log, r |-> r]
Ends == <>(r # "running")
=============================================================================
