----------------------------- MODULE MCPipeline -----------------------------
EXTENDS Pipeline
\* data sets for the model checker
F1 == <<<<1, 2, 1>>, <<2, 3>>, <<1, 2>>>>
F2 == <<<<1, 2>>, <<2, 1>>>>
F3 == <<<<1, 2>>, <<2, 0, 1>>, <<1>>>>
F4 == <<<<1, 2, 3>>, <<3, 2>>>>
F5 == <<<<1, 2, 3, 3>>, <<3, 2, 4>>, <<4, 4, 1>>, <<2>>>>
F6 == <<<<1>>, <<2, 2>>, <<3>>>>
None == {}
Third == {3}
=============================================================================
