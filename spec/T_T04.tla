---- MODULE T_T04 ----
EXTENDS Containers, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, st
E == Cases[c].ev[l]
K == Cases[c].kind
\* "words": the vector of a known word is 1 at its index, that of an unknown word is zero; decoding inverts
WordsOk(e) == LET n == Len(e.labels) IN
    /\ Len(e.x) = Len(e.asked)
    /\ \A i \in 1..Len(e.asked) :
         IF \E j \in 1..n : e.labels[j] = e.asked[i]
         THEN e.x[i] = One(IndexIn(e.labels, e.asked[i]), n, 1000) /\ e.back[i] = e.asked[i] /\ e.tops[i] = <<e.asked[i]>>
         ELSE e.x[i] = Zero(n)
CharsOk(e) == /\ Len(e.at) = Len(e.t)
              /\ \A i \in 1..Len(e.t) : e.len[i] >= 255 /\ IF e.t[i] < e.len[i] THEN e.at[i] = e.t[i] /\ e.sum[i] = 1000 ELSE e.sum[i] = 0 /\ e.at[i] = -1
BpeOk(e) == /\ Len(e.x) = Len(e.t)
            /\ \A i \in 1..Len(e.t) : e.x[i] = IF e.t[i] < e.largest THEN One(e.t[i] + 1, e.largest, 1000) ELSE Zero(e.largest)
\* labels are "a", "b", ..: the best is one with the largest value; the top m come largest first
Idx(s) == s[1] - 96
TopOk(e) == LET n == Len(e.y) k == IF e.m < n THEN e.m ELSE n IN
    /\ \A j \in 1..n : e.y[j] <= e.y[Idx(e.best)]
    /\ Len(e.top) = k
    /\ \A i, j \in 1..k : i < j => e.y[Idx(e.top[i])] >= e.y[Idx(e.top[j])] /\ e.top[i] # e.top[j]
    /\ \A j \in 1..n : (\A i \in 1..k : Idx(e.top[i]) # j) => \A i \in 1..k : e.y[j] <= e.y[Idx(e.top[i])]
PadOk(e) == e.x = [i \in 1..e.target |-> IF i <= e.n THEN [j \in 1..e.w |-> 1000 * i] ELSE Zero(e.w)]
Ok(e) == CASE K = "lru" -> e.e = "contains" => e.r = InCache(st, e.k)
           [] K = "trie" -> e.e = "ask" => /\ e.search = Known(st, e.k) /\ e.match = Known(st, e.k) /\ e.starts = HasPrefix(st, e.k)
                                           /\ e.lookup = Value(st, e.k) /\ CompletionOk(st, e.k, e.complete)
           [] e.e = "words" -> WordsOk(e)
           [] e.e = "chars" -> CharsOk(e)
           [] e.e = "bpe" -> BpeOk(e)
           [] e.e = "top" -> TopOk(e)
           [] e.e = "pad" -> PadOk(e)
           [] OTHER -> FALSE
Step == Ok(E) = TRUE
More == ~bad /\ l <= Len(Cases[c].ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ st = <<>>
Next == \/ /\ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
           /\ st' = IF E.e # "insert" THEN st ELSE IF K = "lru" THEN Touch(st, E.k, Cases[c].cap) ELSE (E.k :> E.v) @@ st
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, st>>
Spec == Init /\ [][Next]_<<c, l, bad, st>>
====
