SPECIFICATION Spec
CONSTANT MaxArgs = 2
CONSTANT Variant = "ok"
INVARIANT Selected
PROPERTY Ends
CHECK_DEADLOCK FALSE
