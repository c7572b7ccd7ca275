SPECIFICATION Spec
CONSTANT Files <- G1
CONSTANT NumGrams = 3
CONSTANT NumCells = 2
CONSTANT Mode = "topk"
CONSTANT W = 1
CONSTANT K = 2
CONSTANT Thr = 0
CONSTANT CellMax = 6
CONSTANT Variant = "ok"
INVARIANT Reproducible
PROPERTY Ends
CHECK_DEADLOCK FALSE
