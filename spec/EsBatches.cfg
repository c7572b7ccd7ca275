INIT Init
NEXT Next
CONSTANT MaxPhrases = 5
CONSTANT MaxSize = 3
CONSTANT Calls = 2
CONSTANT Variant = "ok"
INVARIANT Aligned Small
