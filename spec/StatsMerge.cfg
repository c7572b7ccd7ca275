SPECIFICATION Spec
CONSTANT Files <- G1
CONSTANT Faults <- NoFaults
CONSTANT FailAfter = 1
CONSTANT MaxRetries = 2
CONSTANT W = 2
CONSTANT Variant = "ok"
INVARIANT TotalsExact
INVARIANT ListExact
INVARIANT FailsIffHopeless
PROPERTY Terminates
