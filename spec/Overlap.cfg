INIT Init
NEXT Next
CONSTANT K = 2
CONSTANT N = 3
CONSTANT Runs = 2
CONSTANT Variant = "ok"
INVARIANTS Right SizesRight
