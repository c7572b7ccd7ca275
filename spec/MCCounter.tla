----------------------------- MODULE MCCounter ------------------------------
EXTENDS Counter
I(g, n) == [op |-> "inc", g |-> g, by |-> n]
D(g, n) == [op |-> "dec", g |-> g, by |-> n]
\* two threads, same n-gram
P1 == <<<<I(1, 1), I(1, 1)>>, <<I(1, 1), I(1, 2)>>>>
P2 == <<<<I(1, 1), I(2, 1)>>, <<I(2, 1), I(1, 1)>>>>
P3 == <<<<I(1, 2), I(2, 1)>>, <<I(1, 3)>>, <<I(2, 1)>>>>
P4 == <<<<D(1, 1), D(2, 1)>>, <<D(1, 2), D(1, 1)>>>>
P5 == <<<<D(1, 3)>>, <<D(1, 3)>>, <<D(2, 1)>>>>
P6 == <<<<I(1, 1)>>, <<I(1, 1)>>, <<I(1, 1)>>>>
Own == <<<<1, 2>>, <<3, 4>>>>
Shared == <<<<1, 2>>, <<2, 3>>>>
One == <<<<1>>, <<2>>>>
Three == <<<<1, 2, 3>>, <<4, 5, 6>>>>
=============================================================================
