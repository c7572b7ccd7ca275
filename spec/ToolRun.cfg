SPECIFICATION Spec
CONSTANT Files = 2
CONSTANT MaxLen = 2
CONSTANT Variant = "ok"
INVARIANTS Truthful Complete
PROPERTY Ends
