------------------------------ MODULE FileSort ------------------------------
(* External sort: fill chunks, sort each, merge, suppress repeats.                       *)
EXTENDS Text, TLC

(* what the whole operation must produce *)
SortedLines(ls) == SortSeq(ls, LexLess)
NonEmpty(ls) == SelectSeq(ls, LAMBDA x : x # <<>>)
Distinct(ls) == SetToSortSeq({ls[i] : i \in 1..Len(ls)}, LexLess)
Body(ls, hdr) == IF hdr /\ ls # <<>> THEN Tail(ls) ELSE ls
Result(ls, hdr, dedupe) ==
    LET b == NonEmpty(Body(ls, hdr))
        r == IF dedupe THEN Distinct(b) ELSE SortedLines(b)
    IN IF hdr THEN <<IF ls = <<>> THEN <<>> ELSE Head(ls)>> \o r ELSE r

-----------------------------------------------------------------------------
(* how it is produced *)
VARIABLES pc, todo, buf, runs, out, cfg
svars == <<pc, todo, buf, runs, out, cfg>>
SInit(ls, hdr, dedupe, k) ==
    /\ pc = "fill" /\ buf = <<>> /\ runs = <<>>
    /\ todo = Body(ls, hdr)
    /\ out = IF hdr THEN <<IF ls = <<>> THEN <<>> ELSE Head(ls)>> ELSE <<>>
    /\ cfg = [ls |-> ls, hdr |-> hdr, dd |-> dedupe, k |-> k]
Fill == /\ pc = "fill" /\ todo # <<>> /\ Len(buf) < cfg.k
        /\ buf' = IF Head(todo) = <<>> THEN buf ELSE Append(buf, Head(todo))
        /\ todo' = Tail(todo) /\ UNCHANGED <<pc, runs, out, cfg>>
Flush == /\ pc = "fill" /\ buf # <<>> /\ (Len(buf) >= cfg.k \/ todo = <<>>)
         /\ runs' = Append(runs, SortedLines(buf)) /\ buf' = <<>>
         /\ UNCHANGED <<pc, todo, out, cfg>>
StartMerge == pc = "fill" /\ todo = <<>> /\ buf = <<>> /\ pc' = "merge" /\ UNCHANGED <<todo, buf, runs, out, cfg>>
Heads == {i \in 1..Len(runs) : runs[i] # <<>>}
LastOut == IF Len(out) = (IF cfg.hdr THEN 1 ELSE 0) THEN <<>> ELSE out[Len(out)]
\* any run whose head is least may be popped
Pop(i) == /\ pc = "merge" /\ i \in Heads
          /\ \A j \in Heads : ~LexLess(Head(runs[j]), Head(runs[i]))
          /\ out' = IF cfg.dd /\ Head(runs[i]) = LastOut THEN out ELSE Append(out, Head(runs[i]))
          /\ runs' = [runs EXCEPT ![i] = Tail(@)]
          /\ UNCHANGED <<pc, todo, buf, cfg>>
Done == pc = "merge" /\ Heads = {} /\ pc' = "done" /\ UNCHANGED <<todo, buf, runs, out, cfg>>
SNext == Fill \/ Flush \/ StartMerge \/ (\E i \in 1..Len(runs) : Pop(i)) \/ Done

(* the merge design yields the required result whatever the chunk size *)
MergeCorrect == pc = "done" => out = Result(cfg.ls, cfg.hdr, cfg.dd)
=============================================================================
