INIT Init
NEXT GenNext
CONSTANT Targets <- AllTargets
CONSTANT Opts = {1, 2}
CONSTANT MaxRuns = 2
CONSTANT Size <- Sizes
CONSTANT Old = 4
CONSTANT Variant = "ok"
CHECK_DEADLOCK FALSE
