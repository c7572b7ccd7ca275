SPECIFICATION Spec
CONSTANT MaxLen = 5
CONSTANT Variant = "ok"
INVARIANT KeptUnchanged
INVARIANT LinesRight
INVARIANT ErrorReported
PROPERTY Ends
CHECK_DEADLOCK FALSE
