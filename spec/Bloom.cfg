SPECIFICATION Spec
CONSTANT NumGrams = 3
CONSTANT Hashes = 2
CONSTANT CellMax = 3
CONSTANT MaxAdds = 9
CONSTANT Variant = "ok"
INVARIANT EstimateIsSet
CHECK_DEADLOCK FALSE
