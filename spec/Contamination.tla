--------------------------- MODULE Contamination ---------------------------
(* C30: measuring how much of a benchmark occurs in a corpus. The examples   *)
(* are queried in batches; the answers are numbers of documents, of which    *)
(* the report keeps only whether they are positive.                          *)
(* A document is the set of the texts that it contains.                      *)
(* Variant: "ok", or                                                         *)
(*   "hits"      the documents are added up instead of the examples          *)
(*   "apart"     the fields of an example may be in different documents      *)
(*   "either"    one field of an example suffices                            *)
(*   "distinct"  equal examples are queried, and counted, once               *)
(*   "short"     the last batch is dropped if it is not full                 *)
(*   "batchrate" the mean of the fractions of the batches is reported        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

CONSTANTS Texts, MaxDocs, MaxExamples, Fields, Size, Variant

VARIABLES docs, examples, next, answers, batches, pc
vars == <<docs, examples, next, answers, batches, pc>>

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

Init == /\ docs \in SeqsUpTo(SUBSET Texts, MaxDocs)
        /\ examples \in UNION {[1..k -> [1..Fields -> Texts]] : k \in 1..MaxExamples}
        /\ next = 1 /\ answers = <<>> /\ batches = <<>> /\ pc = "ask"

InDoc(d, e) == \A f \in 1..Fields : e[f] \in docs[d]
Answer(e) ==
    CASE Variant = "apart" -> IF \A f \in 1..Fields : \E d \in 1..Len(docs) : e[f] \in docs[d] THEN 1 ELSE 0
      [] Variant = "either" -> Cardinality({d \in 1..Len(docs) : \E f \in 1..Fields : e[f] \in docs[d]})
      [] OTHER -> Cardinality({d \in 1..Len(docs) : InDoc(d, e)})

Asked == IF Variant = "distinct" THEN SetToSeq({examples[i] : i \in 1..Len(examples)}) ELSE examples

Ask ==
    /\ pc = "ask"
    /\ LET last == IF next + Size - 1 > Len(Asked) THEN Len(Asked) ELSE next + Size - 1
           part == [i \in 1..(last - next + 1) |-> Answer(Asked[next + i - 1])]
       IN  IF part = <<>> \/ (Variant = "short" /\ Len(part) < Size /\ next > 1)
           THEN pc' = "report" /\ UNCHANGED <<next, answers, batches>>
           ELSE /\ answers' = answers \o part
                /\ batches' = Append(batches, part)
                /\ next' = last + 1
                /\ pc' = pc
    /\ UNCHANGED <<docs, examples>>

Next == Ask \/ (pc = "report" /\ UNCHANGED vars)

Positive(s) == Cardinality({i \in 1..Len(s) : s[i] > 0})
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)

\* the reported fraction <<numerator, denominator>>
Report ==
    CASE Variant = "hits" -> <<Sum(answers), Len(examples)>>
      [] Variant = "batchrate" /\ Len(batches) = 2 ->
            <<Positive(batches[1]) * Len(batches[2]) + Positive(batches[2]) * Len(batches[1]), 2 * Len(batches[1]) * Len(batches[2])>>
      [] OTHER -> <<Positive(answers), Len(examples)>>

Contaminated == {i \in 1..Len(examples) : \E d \in 1..Len(docs) : InDoc(d, examples[i])}

Exact == pc = "report" => Report[1] * Len(examples) = Cardinality(Contaminated) * Report[2]
=============================================================================
