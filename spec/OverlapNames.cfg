INIT Init
NEXT Next
CONSTANTS
  K = 1
  N = 3
  Parts = {1, 2}
  Variant = "ok"
INVARIANTS Intact Lists OnlyIfAmbiguous
