---- MODULE T_T03 ----
EXTENDS BytePair, IOUtils, Json
Cases == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES c, l, bad, mem, disk
E == Cases[c].ev[l]
Empty == [codes |-> <<>>, delim |-> <<256>>]
\* bytes become symbols as they are or, above 127, at the top of the 16 bits
Plain(s) == s
High(s) == [i \in 1..Len(s) |-> IF s[i] < 128 THEN s[i] ELSE 65280 + s[i]]
Bytes == (0..255) \cup (65408..65535)
ModelOk(e) == /\ Usable(e.codes, e.delim, Bytes)
              /\ \A k \in 1..Len(e.codes) : e.codes[k].c[1] < e.largest
              /\ Len(e.delim) = 1 /\ e.delim[1] \notin Bytes /\ e.largest > e.delim[1]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
EncOk(e, m) == /\ e.same /\ e.back = e.t
               /\ \E s \in {Plain(e.t), High(e.t)} : e.x = Encode(s, m.codes, m.delim) /\ Decode(e.x, m.codes, m.delim) = s
Ok(e) == LET s == e.s IN
    CASE e.e = "train" -> ModelOk(e) /\ e.delim = mem[s].delim /\ Prefix(mem[s].codes, e.codes)
      [] e.e = "retrain" -> ModelOk(e) /\ e.delim = mem[s].delim /\ e.ok
      [] e.e = "enc" -> EncOk(e, mem[s])
      [] e.e = "save" -> e.ok
      [] e.e = "load" -> e.ok = (e.l \in DOMAIN disk) /\ (LET m == IF e.ok THEN disk[e.l] ELSE mem[s] IN ModelOk(e) /\ e.codes = m.codes /\ e.delim = m.delim)
      [] OTHER -> FALSE
Step == Ok(E) = TRUE
Keeps == E.e \in {"train", "retrain", "load"}
More == ~bad /\ l <= Len(Cases[c].ev)
Init == c \in 1..Len(Cases) /\ l = 1 /\ bad = FALSE /\ mem = [s \in 0..2 |-> Empty] /\ disk = <<>>
Next == \/ /\ More /\ Step /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
           /\ mem' = IF Keeps THEN [mem EXCEPT ![E.s] = [codes |-> E.codes, delim |-> E.delim]] ELSE mem
           /\ disk' = IF E.e = "save" THEN (E.l :> mem[E.s]) @@ disk ELSE disk
        \/ More /\ ~ENABLED Step /\ PrintT(<<"REJECT", c, l>>) /\ bad' = TRUE /\ UNCHANGED <<c, l, mem, disk>>
Spec == Init /\ [][Next]_<<c, l, bad, mem, disk>>
====
