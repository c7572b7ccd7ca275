---------------------------- MODULE ExamplesOps -----------------------------
(* C31: which files of examples are allowed. Lines (hashes or URLs) are      *)
(* numbers, 0 for one that was not asked for.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Asked(docs, wanted) == {docs[i] : i \in 1..Len(docs)} \cap wanted

\* the positions of documents that were asked for
Hits(docs, wanted) == SelectSeq([i \in 1..Len(docs) |-> i], LAMBDA i : docs[i] \in wanted)

\* S: the lines for which an example was given
FoundAllowed(docs, wanted, k, repeats, S) ==
    IF repeats
    THEN LET h == Hits(docs, wanted)
             n == IF Len(h) < k THEN Len(h) ELSE k
         IN  S = {docs[h[i]] : i \in 1..n}
    ELSE LET a == Asked(docs, wanted)
             n == IF Cardinality(a) < k THEN Cardinality(a) ELSE k
         IN  S \subseteq a /\ Cardinality(S) = n

OnceEach(out) == \A i, j \in 1..Len(out) : out[i][1] = out[j][1] => i = j
MostFrequentFirst(out) == \A i \in 1..(Len(out) - 1) : out[i][2] >= out[i + 1][2]

(* A case: docs, wanted (sequence of lines), counts (the count of each, <<>> *)
(* if the list has none), k, repeats, urls (nothing is looked up), out       *)
(* (sequence of <<line, count>>, count -1 if there is none; the line is -1   *)
(* when the text is not the one the hash stands for).                        *)
ExamplesCaseAllowed(c) ==
    LET wanted == {c.wanted[i] : i \in 1..Len(c.wanted)}
        given == {c.out[i][1] : i \in 1..Len(c.out)}
    IN  /\ OnceEach(c.out)
        /\ IF c.urls THEN given = wanted ELSE FoundAllowed(c.docs, wanted, c.k, c.repeats, given)
        /\ IF c.counts = <<>> THEN \A i \in 1..Len(c.out) : c.out[i][2] = -1
           ELSE /\ MostFrequentFirst(c.out)
                /\ \A i \in 1..Len(c.out) : \E j \in 1..Len(c.wanted) : c.wanted[j] = c.out[i][1] /\ c.counts[j] = c.out[i][2]
=============================================================================
