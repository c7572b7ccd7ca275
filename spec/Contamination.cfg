INIT Init
NEXT Next
CONSTANT Texts = {t1, t2}
CONSTANT MaxDocs = 2
CONSTANT MaxExamples = 4
CONSTANT Fields = 2
CONSTANT Size = 3
CONSTANT Variant = "ok"
INVARIANT Exact
