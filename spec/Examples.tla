------------------------------ MODULE Examples ------------------------------
(* C31: the search for examples: the shards are read one after the other,    *)
(* every document that is asked for becomes the example of its line, until k *)
(* have been found; then they are ordered by their counts.                   *)
(* Variant: "ok", or                                                         *)
(*   "noremove"  a line stays on the list after its example was found        *)
(*   "late"      the number is only looked at between shards                 *)
(*   "hurry"     the search ends with the first shard that has any           *)
(*   "early"     one document too few is looked at                           *)
(*   "text"      counts are compared as text                                 *)
(*   "join"      a count belongs to the line with the same rank              *)
EXTENDS ExamplesOps, FiniteSetsExt, TLC

CONSTANTS Lines,     \* lines 1..Lines may be asked for
          Docs,      \* documents
          Variant

VARIABLES docs, cut,          \* all documents in order; the first shard ends after `cut` of them
          wanted, counts, k, repeats,
          pos, left, found, n, phase, out

vars == <<docs, cut, wanted, counts, k, repeats, pos, left, found, n, phase, out>>

Init == /\ docs \in UNION {[1..m -> 0..Lines] : m \in 0..Docs}
        /\ cut \in 0..Docs /\ cut <= Len(docs)
        /\ wanted \in SUBSET (1..Lines)
        /\ counts \in [1..Lines -> {2, 9, 10}]
        /\ k \in 0..(Lines + 1)
        /\ repeats \in BOOLEAN
        /\ pos = 1 /\ left = wanted /\ found = {} /\ n = 0 /\ phase = "scan" /\ out = <<>>

Stop == Len(docs) - (IF Variant = "early" THEN 1 ELSE 0)
Enough == \/ n >= k /\ (Variant = "late" => pos - 1 \in {0, cut})
          \/ Variant = "hurry" /\ pos - 1 = cut /\ n > 0

Scan ==
    /\ phase = "scan" /\ pos <= Stop /\ ~Enough
    /\ LET h == docs[pos]
       IN  IF h \in left
           THEN /\ found' = found \cup {h}
                /\ n' = n + 1
                /\ left' = IF repeats \/ Variant = "noremove" THEN left ELSE left \ {h}
           ELSE UNCHANGED <<found, n, left>>
    /\ pos' = pos + 1
    /\ UNCHANGED <<docs, cut, wanted, counts, k, repeats, phase, out>>

\* the first digit decides when counts are compared as text
AsText(x) == IF x < 10 THEN x * 10 ELSE x
Key(h) == IF Variant = "text" THEN AsText(counts[h]) ELSE counts[h]
CountFor(h) == IF Variant = "join" THEN counts[Cardinality({x \in wanted : x <= h})] ELSE counts[h]

Finish ==
    /\ phase = "scan" /\ (pos > Stop \/ Enough)
    /\ phase' = "done"
    /\ \E o \in SetToSeqs(found) :
        /\ \A i \in 1..(Len(o) - 1) : Key(o[i]) >= Key(o[i + 1])
        /\ out' = [i \in 1..Len(o) |-> <<o[i], CountFor(o[i])>>]
    /\ UNCHANGED <<docs, cut, wanted, counts, k, repeats, pos, left, found, n>>

Next == Scan \/ Finish

Case == LET w == SetToSortSeq(wanted, <)
        IN  [docs |-> docs, wanted |-> w, counts |-> [i \in 1..Len(w) |-> counts[w[i]]], k |-> k, repeats |-> repeats, urls |-> FALSE, out |-> out]
\* an empty list of lines has no counts either
Right == phase = "done" /\ wanted # {} => ExamplesCaseAllowed(Case)
NothingForNothing == phase = "done" /\ wanted = {} => out = <<>>
=============================================================================
