SPECIFICATION Spec
CONSTANT MaxLen = 4
CONSTANT NumDocs = 2
CONSTANT MaxN = 5
CONSTANT Variant = "ok"
INVARIANT Exact
PROPERTY Ends
CHECK_DEADLOCK FALSE
