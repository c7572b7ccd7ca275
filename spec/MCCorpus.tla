------------------------------ MODULE MCCorpus ------------------------------
(* Counts computed in one pass are the counts as they are defined, on every  *)
(* corpus of up to MaxDocs documents of up to MaxToks tokens over Toks.      *)
EXTENDS Corpus

CONSTANTS Toks, MaxToks, MaxDocs, MaxN

VARIABLE docs

DocSet == [has : {0, 1}, t : UNION {[1..i -> Toks] : i \in 0..MaxToks}, m : {1, 3}, b : {1}]

Init == docs = <<>>
Next == Len(docs) < MaxDocs /\ \E d \in DocSet : docs' = Append(docs, d)
Spec == Init /\ [][Next]_docs

OnePassCounts == \A n \in 1..MaxN : Counts(docs, n) = CountsByDefinition(docs, n)
=============================================================================
