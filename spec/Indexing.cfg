INIT Init
NEXT Next
CONSTANT Lines = 4
CONSTANT Chunk = 2
CONSTANT Threads = 2
CONSTANT MaxRuns = 2
CONSTANT MaxCrashes = 1
CONSTANT MaxErrors = 1
CONSTANT Variant = "ok"
INVARIANT OneEach
INVARIANT OwnIds
INVARIANT Complete
INVARIANT Only
INVARIANT NoAlarm
PROPERTY Kept
