SPECIFICATION Spec
CONSTANT Prog <- P1
CONSTANT CellsOf <- Own
CONSTANT MaxVal = 20
CONSTANT InitVal = 0
CONSTANT Variant = "ok"
INVARIANT NeverTooLow
INVARIANT SomebodySeesTotal
INVARIANT CellsHold
INVARIANT ReturnsInRange
INVARIANT ExactAlone
PROPERTY NoWrap
