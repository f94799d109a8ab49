------------------------------ MODULE BytePair ------------------------------
(* Byte pair codes.  A model is a sequence of [p, c]: wherever p occurs (left to right,    *)
(* after all earlier codes were applied) it is replaced by the single symbol c.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Replace(_, _, _, _)
Replace(s, i, p, r) ==
    IF i > Len(s) THEN <<>>
    ELSE IF i + Len(p) - 1 <= Len(s) /\ SubSeq(s, i, i + Len(p) - 1) = p THEN r \o Replace(s, i + Len(p), p, r)
    ELSE <<s[i]>> \o Replace(s, i + 1, p, r)
RECURSIVE Apply(_, _, _)
Apply(s, codes, k) == IF k > Len(codes) THEN s ELSE Apply(TLCEval(Replace(s, 1, codes[k].p, codes[k].c)), codes, k + 1)
RECURSIVE Undo(_, _, _)
Undo(s, codes, k) == IF k = 0 THEN s ELSE Undo(TLCEval(Replace(s, 1, codes[k].c, codes[k].p)), codes, k - 1)
Encode(s, codes, delim) == IF s = <<>> THEN <<>> ELSE Apply(delim \o s \o delim, codes, 1)
Decode(x, codes, delim) == IF x = <<>> THEN <<>> ELSE LET s == Undo(x, codes, Len(codes)) IN SubSeq(s, Len(delim) + 1, Len(s) - Len(delim))
\* a usable model: every code is a symbol of its own, made of symbols known before
Usable(codes, delim, symbols) == \A k \in 1..Len(codes) :
    /\ Len(codes[k].c) = 1 /\ Len(codes[k].p) >= 2
    /\ codes[k].c[1] \notin symbols /\ codes[k].c # delim
    /\ \A j \in 1..k - 1 : codes[j].c[1] < codes[k].c[1]
    /\ \A m \in 1..Len(codes[k].p) : codes[k].p[m] \in symbols \/ codes[k].p[m] < codes[k].c[1]
=============================================================================
