INIT Init
NEXT Next
CONSTANT Shards <- Two
CONSTANT Block = {1}
CONSTANT Keep = TRUE
CONSTANT Procs = 2
CONSTANT Variant = "nolock"
INVARIANT Show
