------------------------------ MODULE MCRepro -------------------------------
EXTENDS Repro
G1 == <<<<1, 2, 1>>, <<3, 2>>, <<1>>>>
G2 == <<<<1, 2, 3, 4>>, <<4, 1>>>>
G3 == <<<<3, 3, 1>>, <<2, 1, 2>>, <<1, 3>>>>
G4 == <<<<1>>, <<2>>, <<1, 2>>>>
G5 == <<<<1, 1>>, <<2, 2>>, <<3, 3>>>>
G6 == <<<<1, 2>>, <<2>>>>
=============================================================================
