SPECIFICATION Spec

CONSTANT Files <- F1
CONSTANT Missing <- None
CONSTANT W = 2
CONSTANT K = 2
CONSTANT Thr = 1
CONSTANT Cap = 1
CONSTANT Rare = FALSE
CONSTANT Emit = FALSE
CONSTANT Variant = "ok"
INVARIANT ExactResult
INVARIANT NoResultOnFailure
INVARIANT NoFalseFailure
INVARIANT MinNeverTooHigh
PROPERTY Terminates
