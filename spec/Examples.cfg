INIT Init
NEXT Next
CONSTANT Lines = 2
CONSTANT Docs = 4
CONSTANT Variant = "ok"
INVARIANT Right
INVARIANT NothingForNothing
CHECK_DEADLOCK FALSE
