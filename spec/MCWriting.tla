----------------------------- MODULE MCWriting ------------------------------
EXTENDS Writing
Rec == <<3, 1, 2>>
=============================================================================
