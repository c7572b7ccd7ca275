SPECIFICATION Spec
CONSTANT Sizes <- OneSplit
CONSTANT B = 2
CONSTANT Workers = 2
CONSTANT MaxCrashes = 2
CONSTANT MaxFails = 1
CONSTANT Gen = FALSE
CONSTANT Variant = "ok"
INVARIANT FinalIsComplete
INVARIANT NothingLost
PROPERTY Completes
