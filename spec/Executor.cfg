SPECIFICATION Spec
CONSTANT Lines <- L2
CONSTANT Plans <- Plan2
CONSTANT Missing <- Some2
CONSTANT MaxRetries = 0
CONSTANT W = 2
CONSTANT Passes = 1
CONSTANT Variant = "ok"
INVARIANT NoResultOnFailure
INVARIANT NoFalseFailure
INVARIANT CompleteOnSuccess
INVARIANT BlamesTheRight
INVARIANT LinesTrue
INVARIANT ErrorsTrue
INVARIANT AttemptsBounded
PROPERTY Terminates
