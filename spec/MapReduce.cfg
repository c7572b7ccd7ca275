INIT Init
NEXT Next
CONSTANT Mappers = 2
CONSTANT Cat = 2
CONSTANT MaxBatch = 2
CONSTANT MaxShard = 2
CONSTANT Variant = "ok"
INVARIANT Bounded
INVARIANT Never2
INVARIANT Right
