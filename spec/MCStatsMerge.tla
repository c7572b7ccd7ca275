---------------------------- MODULE MCStatsMerge ----------------------------
EXTENDS StatsMerge
G1 == <<<<1, 3, 1>>, <<2, 3>>, <<3>>>>
G2 == <<<<1, 1>>, <<2, 1>>, <<1, 2>>>>
G3 == <<<<>>, <<2, 2>>, <<1>>>>
G4 == <<<<1>>, <<2>>, <<3>>, <<1>>>>
NoFaults == [i \in 1..4 |-> 0]
Twice == [i \in 1..4 |-> IF i = 2 THEN 2 ELSE IF i = 1 THEN 1 ELSE 0]
Thrice == [i \in 1..4 |-> IF i = 2 THEN 3 ELSE 0]
TwoEach == [i \in 1..4 |-> 2]
=============================================================================
