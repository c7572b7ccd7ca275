INIT Init
NEXT Next
CONSTANT N = 3
CONSTANT Workers = 2
CONSTANT MaxCrashes = 2
CONSTANT Variant = "ok"
INVARIANT FinalIsComplete NothingLost
CHECK_DEADLOCK FALSE
