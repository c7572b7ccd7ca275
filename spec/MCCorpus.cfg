CONSTANTS
    Toks = {1, 2}
    MaxToks = 3
    MaxDocs = 2
    MaxN = 3
SPECIFICATION Spec
INVARIANT OnePassCounts
CHECK_DEADLOCK FALSE
