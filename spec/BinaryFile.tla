----------------------------- MODULE BinaryFile -----------------------------
(* A binary dataset file: written front to back, then reopened and read at random.      *)
(* A row is a record [g, x]; what g and x are made of is opaque here.                   *)
EXTENDS Naturals, Sequences, FiniteSets

VARIABLES phase,   \* "new" | "writing" | "reading" | "done"
          hdr,     \* the column descriptions given when the file was created
          cap,     \* duplicate-suppression cache size, 0 = off
          rows,    \* rows in the file
          seen     \* givens of the rows kept so far

bvars == <<phase, hdr, cap, rows, seen>>

BInit == phase = "new" /\ hdr = <<>> /\ cap = 0 /\ rows = <<>> /\ seen = {}

Open(h, k) == /\ phase = "new" /\ phase' = "writing"
              /\ hdr' = h /\ cap' = k /\ UNCHANGED <<rows, seen>>

(* new givens are always kept; repeated givens are dropped whenever every distinct       *)
(* given seen so far still fits in the cache; beyond the cache either is allowed         *)
MustKeep(g) == cap = 0 \/ g \notin seen
MustDrop(g) == cap > 0 /\ g \in seen /\ Cardinality(seen) <= cap

Write(g, x, kept) ==
    /\ phase = "writing"
    /\ MustKeep(g) => kept
    /\ MustDrop(g) => ~kept
    /\ rows' = IF kept THEN Append(rows, [g |-> g, x |-> x]) ELSE rows
    /\ seen' = IF kept THEN seen \cup {g} ELSE seen
    /\ UNCHANGED <<phase, hdr, cap>>

Reopen(h, n) == /\ phase = "writing" /\ phase' = "reading"
                /\ h = hdr /\ n = Len(rows)
                /\ UNCHANGED <<hdr, cap, rows, seen>>

\* index i is zero based
Read(i, ok, g, x) == /\ phase = "reading"
                     /\ ok = (i < Len(rows))
                     /\ ok => rows[i + 1] = [g |-> g, x |-> x]
                     /\ UNCHANGED bvars

Finish == phase = "reading" /\ phase' = "done" /\ UNCHANGED <<hdr, cap, rows, seen>>

-----------------------------------------------------------------------------
(* properties of the design *)
Givens == {rows[i].g : i \in 1..Len(rows)}
DistinctWhenItFits == (cap > 0 /\ Cardinality(seen) <= cap) => Cardinality(Givens) = Len(rows)
SeenIsKept == seen = Givens
AppendOnly == [][Len(rows') >= Len(rows) /\ SubSeq(rows', 1, Len(rows)) = rows]_bvars
ReadOnly == [][phase = "reading" => rows' = rows]_bvars
=============================================================================
