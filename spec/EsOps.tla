------------------------------- MODULE EsOps --------------------------------
(* C23, C24: which documents match a query, and which hits and counts are    *)
(* allowed. A document is [w |-> words, f |-> values of its filter fields];  *)
(* a phrase is [kind |-> "phrase", w |-> words, slop |-> number] or          *)
(* [kind |-> "terms", w |-> words, of which one has to occur].               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

PhraseAt(w, p, i) == \A j \in 1..Len(p) : i + j - 1 <= Len(w) /\ w[i + j - 1] = p[j]

Holds(doc, ph) ==
    IF ph.kind = "terms"
    THEN \E i \in 1..Len(doc.w) : \E j \in 1..Len(ph.w) : doc.w[i] = ph.w[j]
    ELSE IF Len(ph.w) = 2
    THEN \E i \in 1..Len(doc.w) : \E j \in (i + 1)..Len(doc.w) :
            j - i - 1 <= ph.slop /\ doc.w[i] = ph.w[1] /\ doc.w[j] = ph.w[2]
    ELSE Len(ph.w) > 0 /\ \E i \in 1..Len(doc.w) : PhraseAt(doc.w, ph.w, i)

PassesAll(doc, filter) == \A i \in 1..Len(filter) : doc.f[filter[i][1]] = filter[i][2]

Hit(doc, phrases, all, filter) ==
    /\ IF all = 1 THEN \A i \in 1..Len(phrases) : Holds(doc, phrases[i])
                  ELSE \E i \in 1..Len(phrases) : Holds(doc, phrases[i])
    /\ PassesAll(doc, filter)

\* the c4 index is restricted to its English subset (field 1, value 1)
FilterOf(c) == IF c.c4 = 1 THEN Append(c.filter, <<1, 1>>) ELSE c.filter

Hits(docs, c) == {i \in 1..Len(docs) : Hit(docs[i], c.phrases, c.all, FilterOf(c))}

(* docs: the index before the call; added: documents that came during it.    *)
(* out: the numbers of the documents that were yielded.                      *)
HitsAllowed(c) ==
    LET before == Hits(c.docs, c)
        later == {i + Len(c.docs) : i \in Hits(c.added, c)}
        got == {c.out[i] : i \in 1..Len(c.out)}
    IN  /\ Cardinality(got) = Len(c.out)
        /\ got \subseteq before \cup later
        /\ IF c.every = 1 THEN before \subseteq got
           ELSE Len(c.out) = IF Cardinality(before) < c.limit THEN Cardinality(before) ELSE c.limit
        /\ c.mutated = 0

(* The indices of the server: [name, dot |-> the name starts with a dot,     *)
(* fields |-> declared, docs |-> the fields of each document]; the result    *)
(* lists <<name, number of documents, fields>>.                              *)
Internal == {"search-test", "test-index-2", "metrics-endpoint.metadata_current_default"}
ToSetOf(q) == {q[i] : i \in 1..Len(q)}
FieldsOf(x) == ToSetOf(x.fields) \cup UNION {ToSetOf(x.docs[i]) : i \in 1..Len(x.docs)}
IndicesAllowed(c) ==
    LET seen == {i \in 1..Len(c.indices) : c.indices[i].dot = 0 /\ c.indices[i].name \notin Internal}
    IN  /\ Len(c.out) = Cardinality(seen)
        /\ \A i \in seen : \E j \in 1..Len(c.out) :
            /\ c.out[j][1] = c.indices[i].name
            /\ c.out[j][2] = Len(c.indices[i].docs)
            /\ Len(c.out[j][3]) = Cardinality(ToSetOf(c.out[j][3]))
            /\ ToSetOf(c.out[j][3]) = IF c.props = 1 THEN FieldsOf(c.indices[i]) ELSE {}

CountsAllowed(c) ==
    /\ c.mutated = 0
    /\ CASE c.op = "count" -> c.out = <<Cardinality(Hits(c.docs, c))>>
         [] c.op = "each" ->
            /\ Len(c.out) = Len(c.groups)
            /\ \A i \in 1..Len(c.groups) :
                c.out[i] = Cardinality(Hits(c.docs, [phrases |-> c.groups[i], all |-> 1, filter |-> c.filter, c4 |-> c.c4]))
            /\ \A i \in 1..Len(c.batches) : c.batches[i] <= c.size
         [] c.op = "indices" -> IndicesAllowed(c)
         [] c.op = "unigrams" ->
            /\ Len(c.out) = Len(c.groups)
            /\ \A i \in 1..Len(c.groups) :
                c.out[i] = FoldSet(LAMBDA d, a : a + Cardinality({j \in 1..Len(c.docs[d].w) : c.docs[d].w[j] = c.groups[i]}),
                                   0, 1..Len(c.docs))

(* C30: groups are the examples of a benchmark, each the phrases of its      *)
(* fields. n, count: as recorded; part: the reported fraction is part / n.   *)
ContaminationAllowed(c) ==
    LET k == Cardinality({i \in 1..Len(c.groups) :
                \E d \in 1..Len(c.docs) : Hit(c.docs[d], c.groups[i], 1, FilterOf([c4 |-> c.c4, filter |-> <<>>]))})
    IN  c.n = Len(c.groups) /\ c.count = k /\ c.part = k
=============================================================================
