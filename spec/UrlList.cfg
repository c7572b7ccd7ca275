INIT Init
NEXT Next
CONSTANT Langs <- L3
CONSTANT MaxStops = 2
CONSTANT Variant = "ok"
INVARIANT OnlyComplete NothingLost
CHECK_DEADLOCK FALSE
