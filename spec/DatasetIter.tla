---------------------------- MODULE DatasetIter -----------------------------
(* Iterating training datasets.  A dataset reads positions 0..cnt-1 of its part of a      *)
(* backing store through an optional, shareable shuffler.  Which stored row a position    *)
(* denotes is unknown beforehand but fixed for ever (per backing part): it is learned     *)
(* from the first read and must never change.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES ds,     \* dataset id -> [part, off, sh]
          parts,  \* part key -> [total, cnt, base, comp, grow]   base: position -> row, -1 unknown
          shs     \* shuffler id -> permutation (sequence, zero based values)
ivars == <<ds, parts, shs>>
IInit == ds = <<>> /\ parts = <<>> /\ shs = <<>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
IsPerm(p) == \A i \in 0..Len(p) - 1 : \E j \in 1..Len(p) : p[j] = i
NoShuffler == "none"

\* part "p" of a store with n rows; comp is the key of the complementary part or ""
\* identity parts (in memory) know their rows beforehand
NewPart(p, n, cnt, comp, identity) ==
    parts' = IF p \in DOMAIN parts THEN parts
             ELSE Put(parts, p, [total |-> n, cnt |-> cnt, comp |-> comp, grow |-> identity,
                                 base |-> [i \in 1..cnt |-> IF identity THEN i - 1 ELSE -1]])
OpenDs(d, p, n, cnt, comp, identity) ==
    /\ d \notin DOMAIN ds
    /\ p \in DOMAIN parts => parts[p].cnt = cnt
    /\ cnt <= n
    /\ (comp \in DOMAIN parts) => parts[comp].cnt + cnt = n
    /\ comp = "" => cnt = n
    /\ NewPart(p, n, cnt, comp, identity)
    /\ ds' = Put(ds, d, [part |-> p, off |-> 0, sh |-> NoShuffler])
    /\ UNCHANGED shs

\* an in-memory dataset grows by one record unless a shuffler was attached
AddRecord(d, ok) ==
    LET p == ds[d].part IN
    /\ parts[p].grow
    /\ ok = (ds[d].sh = NoShuffler)
    /\ parts' = IF ok THEN [parts EXCEPT ![p] = [@ EXCEPT !.total = @ + 1, !.cnt = @ + 1,
                                                          !.base = Append(@, parts[p].cnt)]] ELSE parts
    /\ UNCHANGED <<ds, shs>>

NewShuffler(s, n) == s \notin DOMAIN shs /\ shs' = Put(shs, s, [i \in 1..n |-> i - 1]) /\ UNCHANGED <<ds, parts>>
Shuffle(s, perm) == /\ Len(perm) = Len(shs[s]) /\ IsPerm(perm)
                    /\ shs' = [shs EXCEPT ![s] = perm] /\ UNCHANGED <<ds, parts>>
Attach(d, s, ok) == /\ ok = (Len(shs[s]) = parts[ds[d].part].cnt)
                    /\ ds' = IF ok THEN [ds EXCEPT ![d].sh = s] ELSE ds
                    /\ UNCHANGED <<parts, shs>>

Position(d) == IF ds[d].sh = NoShuffler THEN ds[d].off ELSE shs[ds[d].sh][ds[d].off + 1]
\* row = -1: exhausted
Next1(d, row) ==
    LET p == ds[d].part IN
    IF ds[d].off >= parts[p].cnt THEN row = -1 /\ UNCHANGED ivars
    ELSE LET k == Position(d) + 1 IN
         /\ row \in 0..parts[p].total - 1
         /\ parts[p].base[k] \in {-1, row}
         /\ parts' = [parts EXCEPT ![p].base[k] = row]
         /\ ds' = [ds EXCEPT ![d].off = @ + 1]
         /\ UNCHANGED shs
Restart(d) == ds' = [ds EXCEPT ![d].off = 0] /\ UNCHANGED <<parts, shs>>
Count(d, n) == n = parts[ds[d].part].cnt /\ UNCHANGED ivars

-----------------------------------------------------------------------------
Known(p) == {parts[p].base[i] : i \in 1..parts[p].cnt} \ {-1}
KnownCount(p) == Cardinality({i \in 1..parts[p].cnt : parts[p].base[i] # -1})
EachRowOnce == \A p \in DOMAIN parts : Cardinality(Known(p)) = KnownCount(p)
SplitsDisjoint == \A p \in DOMAIN parts : parts[p].comp \in DOMAIN parts => Known(p) \cap Known(parts[p].comp) = {}
SplitsCover == \A p \in DOMAIN parts :
    (parts[p].comp \in DOMAIN parts /\ KnownCount(p) = parts[p].cnt /\ KnownCount(parts[p].comp) = parts[parts[p].comp].cnt)
       => Known(p) \cup Known(parts[p].comp) = 0..parts[p].total - 1
=============================================================================
