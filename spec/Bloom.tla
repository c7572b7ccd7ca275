------------------------------- MODULE Bloom --------------------------------
(* C11: unique. Adding n-grams to a counting Bloom filter whose cells        *)
(* saturate; the estimate is taken from the number of cells in use. Without  *)
(* collisions every distinct n-gram uses Hashes cells.                       *)
EXTENDS Naturals, FiniteSets

CONSTANTS NumGrams, Hashes, CellMax, MaxAdds, Variant
VARIABLES cells, seen, adds
vars == <<cells, seen, adds>>

\* no collisions: n-gram g owns the cells (g, 1..Hashes)
Cell == (1..NumGrams) \X (1..Hashes)
Init == cells = [x \in Cell |-> 0] /\ seen = {} /\ adds = 0

Bump(n) == IF Variant = "wrap" THEN (n + 1) % (CellMax + 1) ELSE IF n = CellMax THEN n ELSE n + 1
Add(g) ==
    /\ adds < MaxAdds /\ adds' = adds + 1
    /\ cells' = [x \in Cell |-> IF x[1] = g THEN Bump(cells[x]) ELSE cells[x]]
    /\ seen' = seen \cup {g}
Next == \E g \in 1..NumGrams : Add(g)
Spec == Init /\ [][Next]_vars

Nonzero == Cardinality({x \in Cell : cells[x] > 0})
Estimate == IF Variant = "percell" THEN Nonzero ELSE Nonzero \div Hashes
EstimateIsSet == Estimate = Cardinality(seen)
=============================================================================
