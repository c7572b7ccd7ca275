-------------------------------- MODULE TopK --------------------------------
(* C06. The collection (impl) next to the full ranking (best); the histories *)
(* that reach every transition are printed and replayed into the real code.  *)
EXTENDS TopKOps, TLC, Json

CONSTANTS NumGrams, MaxCount, K, MaxDrains, Emit, Variant

VARIABLES impl, best, drains, hist, last
vars == <<impl, best, drains, hist, last>>

Init == impl = EmptyTopK /\ best = {} /\ drains = 0 /\ hist = <<>> /\ last = <<>>

\* deliberately wrong collections, to show that the properties notice
InsertV(s, k, g, c) ==
    CASE Variant = "ok" -> InsertTopK(s, k, g, c)
      [] Variant = "latest" -> \* takes falling counts, too
            LET withg == {p \in s.e : p[2] # g} \cup {<<c, g>>}
                kept == Shrink(withg, k)
            IN  IF c < s.min THEN s
                ELSE [e |-> kept, min |-> IF kept # withg THEN Smallest(kept)[1] ELSE s.min]
      [] Variant = "strict" -> IF Cardinality(s.e) = k /\ c <= s.min THEN s ELSE InsertTopK(s, k, g, c)
      [] Variant = "minfull" -> \* publishes a minimum as soon as anything is in the list
            LET n == InsertTopK(s, k, g, c)
            IN  [n EXCEPT !.min = IF n.e = {} THEN 1 ELSE Smallest(n.e)[1]]
      [] Variant = "noremove" -> \* forgets to remove the old entry
            IF c < s.min \/ \E p \in s.e : p[2] = g /\ p[1] >= c THEN s
            ELSE LET withg == s.e \cup {<<c, g>>}
                     kept == Shrink(withg, k)
                 IN  [e |-> kept, min |-> IF kept # withg THEN Smallest(kept)[1] ELSE s.min]
      [] OTHER -> InsertTopK(s, k, g, c)

Log(op) ==
    /\ hist' = Append(hist, op)
    /\ Emit => PrintT(<<"H", ToJson([h |-> hist', k |-> K, e |-> Descending(impl'.e), min |-> Bound(best', K),
                                     d |-> last'])>>)

Insert(g, c) ==
    /\ impl' = InsertV(impl, K, g, c)
    /\ best' = Better(best, g, c)
    /\ last' = <<>>
    /\ UNCHANGED drains
    /\ Log(<<g, c>>)

Drain ==
    /\ drains < MaxDrains
    /\ drains' = drains + 1
    /\ last' = Descending(impl.e)
    /\ impl' = IF Variant = "keepmin" THEN [EmptyTopK EXCEPT !.min = impl.min] ELSE EmptyTopK
    /\ best' = {}
    /\ Log(<<>>)

Next == (\E g \in 1..NumGrams, c \in 0..MaxCount : Insert(g, c)) \/ Drain
Spec == Init /\ [][Next]_vars

View == <<impl, best, drains>>

\* The collection holds exactly the k largest pairs of the ranking.
KeepsLargest == impl.e = Largest(best, K)
MinIsSafe == MinAllowed(best, K, impl.min)
NoDuplicates == \A p, q \in impl.e : p[2] = q[2] => p = q
FreshAfterDrain == impl.e = {} /\ best = {} => impl.min = 1
=============================================================================
