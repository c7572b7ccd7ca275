SPECIFICATION Spec
VIEW View
CONSTANT NumGrams = 4
CONSTANT MaxCount = 3
CONSTANT K = 2
CONSTANT MaxDrains = 1
CONSTANT Emit = FALSE
CONSTANT Variant = "ok"
INVARIANT KeepsLargest
INVARIANT MinIsSafe
INVARIANT NoDuplicates
INVARIANT FreshAfterDrain
CHECK_DEADLOCK FALSE
