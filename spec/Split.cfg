INIT Init
NEXT Next
CONSTANT MaxLines = 7
CONSTANT MaxN = 4
CONSTANT Tools = 2
CONSTANT Variant = "ok"
INVARIANT Right
INVARIANT NoneFails
INVARIANT CanOpen
