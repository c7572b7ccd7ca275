INIT Init
NEXT Next
VIEW View
CONSTANT Shards <- Three
CONSTANT Block = {1, 2}
CONSTANT Keep = TRUE
CONSTANT Procs = 2
CONSTANT Variant = "ok"
INVARIANT ExactlyOne Complete SoFar
