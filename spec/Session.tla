------------------------------ MODULE Session ------------------------------
(* What a session does with scripts.  A statement is [m, r]: the mark it leaves and its      *)
(* outcome "ok", "fail", "exit" or "throw"; a block is [parses, stmts]; a program of nested  *)
(* blocks is a tree.                                                                        *)
EXTENDS Integers, Sequences, SequencesExt, TLC
\* nested code: a node is [leaf, r, sub]; statements are numbered in source order
RECURSIVE Size(_), SizeAll(_)
Size(t) == IF t.leaf THEN 1 ELSE SizeAll(t.sub)
SizeAll(ts) == IF ts = <<>> THEN 0 ELSE Size(ts[1]) + SizeAll(TLCEval(Tail(ts)))
\* running nodes ts, the first statement of which has number n: [log, r]
RECURSIVE RunAll(_, _)
RunAll(ts, n) ==
    IF ts = <<>> THEN [log |-> <<>>, r |-> "ok"]
    ELSE LET first == TLCEval(IF ts[1].leaf THEN [log |-> <<n>>, r |-> ts[1].r] ELSE RunAll(ts[1].sub, n))
         IN IF first.r # "ok" THEN first
            ELSE LET rest == TLCEval(RunAll(TLCEval(Tail(ts)), n + Size(ts[1])))
                 IN [log |-> first.log \o rest.log, r |-> rest.r]
\* one block of a session
RECURSIVE RunStmts(_)
RunStmts(ss) == IF ss = <<>> THEN [marks |-> <<>>, r |-> "ok"]
                ELSE IF ss[1].r # "ok" THEN [marks |-> <<ss[1].m>>, r |-> ss[1].r]
                ELSE LET rest == RunStmts(TLCEval(Tail(ss))) IN [marks |-> <<ss[1].m>> \o rest.marks, r |-> rest.r]
RunBlock(b) == IF b.parses THEN RunStmts(b.stmts) ELSE [marks |-> <<>>, r |-> "fail"]
\* a sequence of blocks: only exit ends it
RECURSIVE RunBlocks(_)
RunBlocks(bs) == IF bs = <<>> THEN [marks |-> <<>>, done |-> FALSE]
                 ELSE LET b == TLCEval(RunBlock(bs[1]))
                      IN IF b.r = "exit" THEN [marks |-> b.marks, done |-> TRUE]
                         ELSE LET rest == RunBlocks(TLCEval(Tail(bs))) IN [marks |-> b.marks \o rest.marks, done |-> rest.done]
=============================================================================
