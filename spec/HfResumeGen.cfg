INIT Init
NEXT Next
CONSTANT Sizes <- OneSplit
CONSTANT B = 2
CONSTANT Workers = 2
CONSTANT MaxCrashes = 2
CONSTANT MaxFails = 1
CONSTANT Gen = TRUE
CONSTANT Variant = "ok"
INVARIANT Show
