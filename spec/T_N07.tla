---- MODULE T_N07 ----
EXTENDS Hyperband, IOUtils, Json, SequencesExt
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, cfgs, info
E == Cases[c].ev[l]
Unread == 888888888
Worth(m) == IF m = Unread THEN Worst ELSE IF info.minimize THEN -m ELSE m
Sizes == <<32, 64, 128, 1, 256, 512, 1024>>
BatchesFor(m) == SelectSeq(Sizes, LAMBDA b : b <= m \/ b = 1)
InSpace(cfg) == \A i \in 1..Len(cfg) : cfg[i] \in 1..info.sizes[i]
\* rarely will two configurations of a large space be the same
Fresh(id, cfg) == IF id \in DOMAIN cfgs THEN cfgs[id] = cfg
                  ELSE info.all < 10 * SizeOf(set) \/ \A k \in DOMAIN cfgs : cfgs[k] # cfg
Close(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : LET d == a[i] - b[i] IN d <= 1 /\ d >= -1
\* a configuration may be unfit for the data: then it is never seen
Round1Over == info.lossy \/ Over
EvalOk == /\ InSpace(E.cfg) /\ Fresh(E.id, E.cfg)
          /\ E.bits /\ E.batch = E.size
          /\ E.epochs <= info.epochs
          /\ E.own = E.again
          /\ info.lossy \/ E.res = Resources(set, IF Full THEN round + 1 ELSE round)
Seek == [n |-> E.n, res |-> E.res, factor |-> E.factor, target |-> IF E.minimize THEN -E.target ELSE E.target, all |-> E.all]
Tidy == E.left_n = 0
Step == \/ /\ E.e = "start"
           /\ E.batches = BatchesFor(E.maxbatch)
           /\ Start(Seek)
           /\ info' = [sizes |-> E.sizes, epochs |-> E.epochs, minimize |-> E.minimize, all |-> E.all, lossy |-> E.lossy, ans |-> <<>>, b32 |-> E.b32]
           /\ cfgs' = <<>>
        \/ /\ E.e = "eval" /\ Sane(set) = TRUE
           /\ EvalOk = TRUE
           /\ IF info.lossy THEN hist' = Append(hist, <<E.id, IF E.fails THEN Worst ELSE Worth(E.metric), ~E.fails>>) /\ UNCHANGED <<set, round, n, prev, cur>>
              ELSE Evaluate(E.id, IF E.fails THEN Worst ELSE Worth(E.metric), ~E.fails, 1)
           /\ cfgs' = With(cfgs, E.id, E.cfg)
           /\ info' = [info EXCEPT !.ans = Append(@, E.answer)]
        \* a search that cannot reduce is refused
        \/ E.e = "result" /\ ~Sane(set) /\ E.threw /\ ~E.found /\ Tidy /\ UNCHANGED <<set, round, n, prev, cur, hist, cfgs, info>>
        \/ /\ E.e = "result" /\ Sane(set) = TRUE
           /\ ~E.threw /\ Tidy
           /\ Round1Over = TRUE
           /\ E.found = (Seen # {})
           \* the answer is the best configuration, as it was when it was best
           /\ (E.found => \E i \in 1..Len(hist) :
                   /\ hist[i][3] /\ hist[i][1] \in Winners(1) /\ \A h \in Seen : hist[i][2] + 1 >= h[2]
                   /\ \E k \in 1..Len(E.ids) : E.ids[k] = hist[i][1]
                   /\ info.b32 => Close(info.ans[i], E.answer)) = TRUE
           /\ UNCHANGED <<set, round, n, prev, cur, hist, cfgs, info>>
More == ~bad /\ l <= Len(Cases[c].ev)
Init == /\ c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ cfgs = <<>> /\ info = <<>>
        /\ set = [n |-> 0] /\ round = 0 /\ n = 0 /\ prev = <<>> /\ cur = <<>> /\ hist = <<>>
Next == \/ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<hvars, cfgs, info, c, l>>
Spec == Init /\ [][Next]_<<hvars, cfgs, info, c, l, bad>>
====
