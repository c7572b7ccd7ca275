------------------------------ MODULE TopKOps -------------------------------
(* The top-k collection (src/ngrams/topk.rs) as operators on a value         *)
(*   [e |-> {<<count, ngram>>}, min |-> published minimum count]             *)
(* n-grams are numbers; their numeric order is the order of the collection.  *)
EXTENDS Naturals, FiniteSets, FiniteSetsExt, Sequences, SequencesExt, TLC

Less(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Smallest(S) == CHOOSE p \in S : \A q \in S : p = q \/ Less(p, q)
Descending(S) == SetToSortSeq(S, LAMBDA p, q : Less(q, p))

\* The k largest elements of S
Largest(S, k) == LET d == Descending(S) IN {d[i] : i \in 1..(IF Len(d) < k THEN Len(d) ELSE k)}

EmptyTopK == [e |-> {}, min |-> 1]

RECURSIVE Shrink(_, _)
Shrink(S, k) == IF Cardinality(S) > k THEN Shrink(S \ {Smallest(S)}, k) ELSE S

InsertTopK(s, k, g, c) ==
    IF c < s.min THEN s
    ELSE IF \E p \in s.e : p[2] = g /\ p[1] >= c THEN s
    ELSE LET withg == {p \in s.e : p[2] # g} \cup {<<c, g>>}
             kept == Shrink(withg, k)
         IN  [e |-> kept,
              min |-> IF kept # withg /\ kept # {} THEN Smallest(kept)[1] ELSE s.min]

(* What the collection is supposed to be: the ranking of the highest counts  *)
(* seen so far. best maps n-grams to counts (a set of pairs).                *)
Better(best, g, c) ==
    IF c = 0 \/ \E p \in best : p[2] = g /\ p[1] >= c THEN best
    ELSE {p \in best : p[2] # g} \cup {<<c, g>>}

\* The published minimum must not exclude anything that belongs to the k largest: an n-gram with
\* a smaller count can only be ignored if k n-grams with larger or equal counts are there.
Bound(best, k) == IF Cardinality(best) < k THEN 1 ELSE IF k = 0 THEN 99 ELSE Smallest(Largest(best, k))[1]
MinAllowed(best, k, m) == k = 0 \/ m <= Bound(best, k)

(* The same for recorded drains of large collections. A case: k, inserts     *)
(* (for each n-gram, in order, the counts it was inserted with since the     *)
(* last drain), out (sequence of <<count, ngram>>), min (the published       *)
(* minimum before the drain).                                                *)
DrainAllowed(c) ==
    LET N == Len(c.inserts)
        best == TLCEval([g \in 1..N |-> FoldLeft(LAMBDA a, x : IF x > a THEN x ELSE a, 0, c.inserts[g])])
        n == Cardinality({g \in 1..N : best[g] > 0})
        listed == TLCEval({c.out[i][2] : i \in 1..Len(c.out)})
        last == c.out[Len(c.out)]
    IN  /\ Len(c.out) = IF n < c.k THEN n ELSE c.k
        /\ \A i \in 1..Len(c.out) : c.out[i][2] \in 1..N /\ c.out[i][1] = best[c.out[i][2]]
        /\ \A i \in 1..(Len(c.out) - 1) : Less(c.out[i + 1], c.out[i])
        /\ c.out # <<>> => \A g \in (1..N) \ listed : Less(<<best[g], g>>, last)
        /\ c.min <= IF n < c.k THEN 1 ELSE IF c.out = <<>> THEN c.min ELSE last[1]
=============================================================================
