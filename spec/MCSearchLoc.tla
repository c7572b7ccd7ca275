---------------------------- MODULE MCSearchLoc -----------------------------
EXTENDS SearchLoc
S1 == <<<<2, 1>>, <<0, 2>>, <<1>>>>
L1 == <<1, 2, 3>>
L2 == <<1, 2, 1>>
=============================================================================
