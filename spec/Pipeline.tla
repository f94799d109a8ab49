------------------------------ MODULE Pipeline ------------------------------
(* 'create dataset' as a sequence of file effects, with a crash possible between any two of  *)
(* them and any number of later attempts.  A file is Absent or [rows, whole]; rows are        *)
(* appended one at a time.  A row is <<given, expected>>.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, MaxRows, MaxCrashes
Rows == Vals \X Vals
Absent == [rows |-> <<>>, whole |-> FALSE, there |-> FALSE]
File(r, w) == [rows |-> r, whole |-> w, there |-> TRUE]
VARIABLES src, organized, sorted, raw, tmp, final, pc, crashes
vars == <<src, organized, sorted, raw, tmp, final, pc, crashes>>
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
SetOf(s) == {s[i] : i \in 1..Len(s)}
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Less(x, y) IN <<m>> \o Sorted(S \ {m})
Sources == UNION {[1..n -> Rows] : n \in 1..MaxRows}
Init == /\ src \in {File(s, TRUE) : s \in Sources}
        /\ organized = Absent /\ sorted = Absent /\ raw = Absent /\ tmp = Absent /\ final = Absent
        /\ pc = "idle" /\ crashes = 0
\* refused when the name is taken: idle and final.there
Begin == pc = "idle" /\ ~final.there /\ pc' = "organize" /\ organized' = File(<<>>, FALSE)
         /\ UNCHANGED <<src, sorted, raw, tmp, final, crashes>>
Organize == /\ pc = "organize"
            /\ IF Len(organized.rows) < Len(src.rows)
               THEN organized' = File(Append(organized.rows, src.rows[Len(organized.rows) + 1]), FALSE) /\ UNCHANGED <<pc, sorted>>
               ELSE organized' = File(organized.rows, TRUE) /\ pc' = "sort" /\ sorted' = File(<<>>, FALSE)
            /\ UNCHANGED <<src, raw, tmp, final, crashes>>
Sort == /\ pc = "sort"
        /\ LET all == Sorted(SetOf(organized.rows))
           IN IF Len(sorted.rows) < Len(all)
              THEN sorted' = File(Append(sorted.rows, all[Len(sorted.rows) + 1]), FALSE) /\ UNCHANGED pc
              ELSE sorted' = File(sorted.rows, TRUE) /\ pc' = "drop organized"
        /\ UNCHANGED <<src, organized, raw, tmp, final, crashes>>
DropOrganized == /\ pc = "drop organized" /\ organized' = Absent /\ raw' = File(<<>>, FALSE) /\ pc' = "raw"
                 /\ UNCHANGED <<src, sorted, tmp, final, crashes>>
\* the first of the rows with the same given values is kept
Firsts(s) == SelectSeq(s, LAMBDA r : \A q \in SetOf(s) : q[1] = r[1] => q = r \/ Less(r, q))
WriteRaw == /\ pc = "raw"
            /\ LET all == Firsts(sorted.rows)
               IN IF Len(raw.rows) < Len(all)
                  THEN raw' = File(Append(raw.rows, all[Len(raw.rows) + 1]), FALSE) /\ UNCHANGED pc
                  ELSE raw' = File(raw.rows, TRUE) /\ pc' = "drop sorted"
            /\ UNCHANGED <<src, organized, sorted, tmp, final, crashes>>
DropSorted == /\ pc = "drop sorted" /\ sorted' = Absent /\ tmp' = File(<<>>, FALSE) /\ pc' = "scale"
              /\ UNCHANGED <<src, organized, raw, final, crashes>>
Scale == /\ pc = "scale"
         /\ IF Len(tmp.rows) < Len(raw.rows)
            THEN tmp' = File(Append(tmp.rows, raw.rows[Len(tmp.rows) + 1]), FALSE) /\ UNCHANGED pc
            ELSE tmp' = File(tmp.rows, TRUE) /\ pc' = "publish"
         /\ UNCHANGED <<src, organized, sorted, raw, final, crashes>>
Publish == pc = "publish" /\ final' = tmp /\ tmp' = Absent /\ pc' = "drop raw"
           /\ UNCHANGED <<src, organized, sorted, raw, crashes>>
DropRaw == pc = "drop raw" /\ raw' = Absent /\ pc' = "done"
           /\ UNCHANGED <<src, organized, sorted, tmp, final, crashes>>
\* the process dies; a later attempt starts from what is on disk
Crash == pc \notin {"idle", "done"} /\ crashes < MaxCrashes /\ crashes' = crashes + 1 /\ pc' = "idle"
         /\ UNCHANGED <<src, organized, sorted, raw, tmp, final>>
Next == Begin \/ Organize \/ Sort \/ DropOrganized \/ WriteRaw \/ DropSorted \/ Scale \/ Publish \/ DropRaw \/ Crash
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Begin \/ Organize \/ Sort \/ DropOrganized \/ WriteRaw \/ DropSorted \/ Scale \/ Publish \/ DropRaw)
-----------------------------------------------------------------------------
Givens(rows) == {rows[i][1] : i \in 1..Len(rows)}
Complete(f) == /\ f.whole
               /\ SetOf(f.rows) \subseteq SetOf(src.rows)
               /\ Givens(f.rows) = Givens(src.rows)
               /\ Len(f.rows) = Cardinality(Givens(src.rows))
NeverHalfMade == final.there => Complete(final)
NothingLeft == pc = "done" => /\ ~organized.there /\ ~sorted.there /\ ~tmp.there /\ ~raw.there /\ final.there
SourceKept == [][src' = src]_vars
OnceMadeKept == [][final.there => final' = final]_vars
EventuallyMade == <>(final.there)
=============================================================================
