SPECIFICATION Spec
CONSTANT Targets <- AllTargets
CONSTANT Opts = {1, 2}
CONSTANT MaxRuns = 2
CONSTANT Size <- Sizes
CONSTANT Old = 4
CONSTANT Variant = "ok"
INVARIANT Protected
INVARIANT Exact
INVARIANT Kept
INVARIANT NoPartial
INVARIANT OneFile
PROPERTY Ends
CHECK_DEADLOCK FALSE
