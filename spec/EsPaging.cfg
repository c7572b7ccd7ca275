SPECIFICATION Spec
CONSTANT Keys = {1, 2}
CONSTANT N = 4
CONSTANT Adds = 2
CONSTANT Size = 2
CONSTANT Variant = "ok"
INVARIANT Once All NoError
PROPERTY Ends
