SPECIFICATION Spec
CONSTANT Files <- S1
CONSTANT Listing <- L1
CONSTANT Limit = 3
CONSTANT W = 2
CONSTANT Cap = 1
CONSTANT Variant = "ok"
INVARIANT CountExact
INVARIANT LocationsExact
PROPERTY Terminates
