------------------------------- MODULE Limbs --------------------------------
(* Numbers up to 64 bits as sequences of four 16-bit limbs, least            *)
(* significant first (TLC's own integers have 32 bits).                      *)
EXTENDS Naturals, Integers, Sequences

Base == 65536
Zero == <<0, 0, 0, 0>>
IsNum(x) == Len(x) = 4 /\ \A i \in 1..4 : x[i] \in 0..(Base - 1)

\* x + y: <<limbs, carry>>
Add(x, y) ==
    LET s1 == x[1] + y[1]
        s2 == x[2] + y[2] + s1 \div Base
        s3 == x[3] + y[3] + s2 \div Base
        s4 == x[4] + y[4] + s3 \div Base
    IN  <<<<s1 % Base, s2 % Base, s3 % Base, s4 % Base>>, s4 \div Base>>

Less64(x, y) ==
    \/ x[4] < y[4]
    \/ x[4] = y[4] /\ x[3] < y[3]
    \/ x[4] = y[4] /\ x[3] = y[3] /\ x[2] < y[2]
    \/ x[4] = y[4] /\ x[3] = y[3] /\ x[2] = y[2] /\ x[1] < y[1]

\* x - y for x >= y
Minus(x, y) ==
    LET d1 == x[1] - y[1]
        b1 == IF d1 < 0 THEN 1 ELSE 0
        d2 == x[2] - y[2] - b1
        b2 == IF d2 < 0 THEN 1 ELSE 0
        d3 == x[3] - y[3] - b2
        b3 == IF d3 < 0 THEN 1 ELSE 0
        d4 == x[4] - y[4] - b3
    IN  <<d1 + b1 * Base, d2 + b2 * Base, d3 + b3 * Base, d4>>

\* saturating at max and at 0
SatAdd64(x, y, max) ==
    LET s == Add(x, y) IN IF s[2] > 0 \/ Less64(max, s[1]) THEN max ELSE s[1]
SatSub64(x, y) == IF Less64(x, y) THEN Zero ELSE Minus(x, y)
=============================================================================
