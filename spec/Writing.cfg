SPECIFICATION Spec
CONSTANT Records <- Rec
CONSTANT Room = 6
CONSTANT Variant = "ok"
INVARIANT Complete
PROPERTY Ends
CHECK_DEADLOCK FALSE
