SPECIFICATION Spec
CONSTANTS
  Variant = "none"
  MaxWords = 3
  MaxLen = 3
  Cut = 3
INVARIANTS
  Exact
  Fails
  Spelled
  Settled
PROPERTY Ends
