----------------------------- MODULE OverlapOps -----------------------------
(* C22: which overlap lists, counts and examples are allowed. Lines (hashes  *)
(* or URLs) are numbers in the order in which sort puts them.                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Sorted(S) == SetToSortSeq(S, <)
Items(seq) == {seq[i] : i \in 1..Len(seq)}
Multiplicity(seq, x) == Cardinality({i \in 1..Len(seq) : seq[i] = x})
Common(data, members) == {x \in Items(data[Head(members)]) : \A i \in 1..Len(members) : x \in Items(data[members[i]])}
SumOver(S, f(_)) == FoldSet(LAMBDA x, a : a + f(x), 0, S)

CountsOf(seq) ==
    LET rep == {x \in Items(seq) : Multiplicity(seq, x) > 1}
    IN  [total |-> Len(seq), uniq |-> Cardinality(Items(seq)),
         dup |-> SumOver(rep, LAMBDA x : Multiplicity(seq, x)), uniqdup |-> Cardinality(rep)]

\* the k most frequent lines, most frequent first; ex: sequence of <<line, count>>
ExamplesAllowed(seq, k, ex) ==
    LET n == Cardinality(Items(seq))
        listed == {ex[i][1] : i \in 1..Len(ex)}
    IN  /\ Len(ex) = IF n < k THEN n ELSE k
        /\ Cardinality(listed) = Len(ex)
        /\ \A i \in 1..Len(ex) : ex[i][1] \in Items(seq) /\ ex[i][2] = Multiplicity(seq, ex[i][1])
        /\ \A i \in 1..(Len(ex) - 1) : ex[i][2] >= ex[i + 1][2]
        /\ \A x \in Items(seq) \ listed : \A i \in 1..Len(ex) : Multiplicity(seq, x) <= ex[i][2]

\* the sizes of all lists, each once; sizes: sequence of [m |-> members, n |-> size]
SizesAllowed(data, sizes) ==
    /\ \A i \in 1..Len(sizes) : sizes[i].n = Cardinality(Common(data, sizes[i].m))
    /\ Cardinality({sizes[i].m : i \in 1..Len(sizes)}) = Len(sizes)
    /\ Len(sizes) = 2 ^ Len(data) - 1

(* A case: data (sequence of sequences of lines), overlaps (sequence of      *)
(* [m |-> members, l |-> list]), counts (sequence of <<dataset, total, uniq, *)
(* dup, uniqdup>>), lists (sequence of <<dataset, sequence of <<count,       *)
(* line>> >>), examples (sequence of <<dataset, k, sequence of <<line,       *)
(* count>> >>), sizes (where observed); each only as far as it was observed.  *)
OverlapAllowed(c) ==
    /\ \A i \in 1..Len(c.overlaps) : c.overlaps[i].l = Sorted(Common(c.data, c.overlaps[i].m))
    /\ \A i \in 1..Len(c.counts) :
        LET x == c.counts[i]
            r == CountsOf(c.data[x[1]])
        IN  x[2] = r.total /\ x[3] = r.uniq /\ x[4] = r.dup /\ x[5] = r.uniqdup
    /\ \A i \in 1..Len(c.lists) :
        LET seq == c.data[c.lists[i][1]]
            l == c.lists[i][2]
        IN  /\ [j \in 1..Len(l) |-> l[j][2]] = Sorted(Items(seq))
            /\ \A j \in 1..Len(l) : l[j][1] = Multiplicity(seq, l[j][2])
    /\ Len(c.sizes) = 0 \/ SizesAllowed(c.data, c.sizes)
    /\ \A i \in 1..Len(c.examples) : ExamplesAllowed(c.data[c.examples[i][1]], c.examples[i][2], c.examples[i][3])

(* The lists are files whose names are those of the members, joined by a     *)
(* conjunction that may itself occur in names. names: for each data set the  *)
(* parts of its name between conjunctions. *)
Members(n) == {m \in UNION {[1..k -> 1..n] : k \in 1..n} : \A i \in 1..(Len(m) - 1) : m[i] < m[i + 1]}
FileOf(names, m) == FoldLeft(LAMBDA a, i : a \o names[i], <<>>, m)
Ambiguous(names) == \E a, b \in Members(Len(names)) : a # b /\ FileOf(names, a) = FileOf(names, b)

(* Where two combinations would share a file nothing right can be written: the *)
(* run fails (failed = 1) and leaves the lists of the data sets as they were   *)
(* (intact = 1). *)
NamesAllowed(c) ==
    IF Ambiguous(c.names) THEN c.failed = 1 /\ c.intact = 1
    ELSE c.failed = 0 /\ c.intact = 1 /\ OverlapAllowed(c)
=============================================================================
