----------------------------- MODULE SmallFloat -----------------------------
(* 8-bit (4 exponent bits, 3 fraction bits, chosen bias) and 16-bit floats.  A 32-bit float *)
(* is [s, m]: its sign bit and its other 31 bits, which order like its magnitude.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Mod(x, y) == x - y * (x \div y)
P20 == 1048576
P23 == 8388608
InfBits == 255 * P23
IsNaN(f) == f.m > InfBits
IsInf(f) == f.m = InfBits
Key(f) == IF f.s = 1 THEN 0 - f.m ELSE f.m                 \* orders the non-NaN floats
Bias(b) == IF b = 0 THEN 1 ELSE b
-----------------------------------------------------------------------------
\* 8 bits: 128 ("-0") stands for a positive number below all others; 120, 248 and 255 for the infinities and NaN; the rest of 121..254 is unused
QTiny == 128
QMax == 119
QMin == 247
QNumbers == (0..QMax) \cup (QTiny..QMin)
QKey(q, b) == CASE q = 0 -> 0
                [] q = QTiny -> (126 - Bias(b)) * P23 + 2
                [] q < 128 -> q * P20 + (127 - Bias(b)) * P23
                [] OTHER -> 0 - ((q - 128) * P20 + (127 - Bias(b)) * P23)
QKeys(b) == {QKey(q, b) : q \in QNumbers}
\* no representable number lies between x and r, and x itself, if representable, is r
Neighbour(x, r, S) == r \in S /\ \A v \in S : ~(x <= v /\ v < r) /\ ~(r < v /\ v <= x)
QMeans(q, b, f) == CASE q = 120 -> f.s = 0 /\ IsInf(f)
                     [] q = 248 -> f.s = 1 /\ IsInf(f)
                     [] q = 255 -> IsNaN(f)
                     [] OTHER -> q \in QNumbers /\ ~IsNaN(f) /\ Key(f) = QKey(q, b)
\* what a float may become
QOk(f, b, q, S) == CASE IsNaN(f) -> q = 255
                     [] IsInf(f) -> q = IF f.s = 1 THEN 248 ELSE 120
                     [] OTHER -> q \in QNumbers /\ Neighbour(Key(f), QKey(q, b), S)
\* the design: keep three fraction bits, round half up unless that would carry, tiny instead of zero down to a threshold, saturate
QDesign(k, b) ==
    LET B == Bias(b)
        a == IF k < 0 THEN 0 - k ELSE k
        e == (a \div P23) - (127 - B)
        f == Mod(a \div P20, 8)
        h == Mod(a \div (P20 \div 2), 2)
        m == IF f < 7 THEN f + h ELSE f
        c == IF e > 14 THEN QMax ELSE IF e < 0 THEN 0 ELSE e * 8 + m
        low == IF B > 11 THEN -1 ELSE B - 12
    IN IF c # 0 THEN (IF k < 0 THEN 128 + c ELSE c) ELSE IF k > 0 /\ e >= low THEN QTiny ELSE 0
-----------------------------------------------------------------------------
\* 16 bits: the upper half of a float
P16 == 65536
HSign(h) == h \div 32768
HBits(h) == Mod(h, 32768) * P16
HMeans(h, f) == IF HBits(h) > InfBits THEN IsNaN(f) ELSE f.s = HSign(h) /\ f.m = HBits(h)
HMaxBits == 254 * P23 + 127 * P16
HOk(f, h) == IF IsNaN(f) THEN HBits(h) > InfBits
             ELSE /\ HSign(h) = f.s
                  /\ IF IsInf(f) THEN HBits(h) = InfBits
                     ELSE IF f.m > HMaxBits THEN HBits(h) = HMaxBits
                     ELSE LET lo == f.m - Mod(f.m, P16) IN HBits(h) = lo \/ (HBits(h) = lo + P16 /\ f.m # lo)
=============================================================================
