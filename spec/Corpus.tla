------------------------------- MODULE Corpus -------------------------------
(* What a data set is, which of its lines a command processes, and what the  *)
(* n-grams, counts and statistics of those lines are. Everything here is     *)
(* data level: the protocol specifications refer to it for what the result   *)
(* of a run has to be, and recorded runs of the real code are judged by it.  *)
(*                                                                            *)
(* A document is [has |-> 0/1, t |-> <<tokens>>, m |-> multiplicity,          *)
(* b |-> bytes of its line]; a file is a sequence of documents.               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* The first l elements (everything if l is negative, i.e. there is no limit).
Take(s, l) == IF l < 0 \/ l >= Len(s) THEN s ELSE SubSeq(s, 1, l)

\* `listing` is the sequence of indices of the files that were named (or found below a named
\* directory), in order and with repetitions.
SelectedFiles(files, listing, flimit, limit) ==
    LET kept == Take(listing, flimit)
    IN  [i \in 1..Len(kept) |-> Take(files[kept[i]], limit)]

SelectedDocs(files, listing, flimit, limit) ==
    FlattenSeq(SelectedFiles(files, listing, flimit, limit))

SumOver(S, f(_)) == FoldSet(LAMBDA x, a : f(x) + a, 0, S)

-----------------------------------------------------------------------------
(* n-grams *)

NumWindows(t, n) == IF Len(t) >= n THEN Len(t) - n + 1 ELSE 0
Windows(t, n) == [i \in 1..NumWindows(t, n) |-> SubSeq(t, i, i + n - 1)]

Text(d) == IF d.has = 1 THEN d.t ELSE <<>>

Occurrences(t, g) == Cardinality({i \in 1..NumWindows(t, Len(g)) : SubSeq(t, i, i + Len(g) - 1) = g})

Grams(docs, n) == UNION {Range(Windows(Text(docs[j]), n)) : j \in 1..Len(docs)}

\* Total number of occurrences of g; documents carry multiplicities.
Total(docs, g) == SumOver(1..Len(docs), LAMBDA j : docs[j].m * Occurrences(Text(docs[j]), g))

CountsByDefinition(docs, n) == [g \in Grams(docs, n) |-> Total(docs, g)]

\* The same counts, computed in one pass (MCCorpus checks that they agree).
Counts(docs, n) ==
    FoldLeft(LAMBDA f, d :
                 FoldLeft(LAMBDA h, g : [h EXCEPT ![g] = @ + d.m], f, Windows(Text(d), n)),
             TLCEval([g \in Grams(docs, n) |-> 0]), docs)

-----------------------------------------------------------------------------
(* topk, botk, unique *)

\* `out` is a list of [g |-> ngram, c |-> count, r |-> rank]. Is it a ranking of the k elements of E
\* that are best according to `beats`, with their exact counts C? (Ties at the end may go either way.)
Ranking(out, k, E, C, beats(_, _)) ==
    /\ Len(out) = Min2(k, Cardinality(E))
    /\ \A i \in 1..Len(out) :
          /\ out[i].g \in E
          /\ out[i].c = C[out[i].g]
          /\ out[i].r = i
    /\ \A i \in 1..(Len(out) - 1) : ~beats(out[i + 1].c, out[i].c)
    /\ Cardinality({out[i].g : i \in 1..Len(out)}) = Len(out)
    /\ \A g \in E \ {out[i].g : i \in 1..Len(out)} : Len(out) > 0 => ~beats(C[g], out[Len(out)].c)

TopkAllowed(docs, n, k, thr, out) ==
    LET C == Counts(docs, n)
        E == {g \in DOMAIN C : C[g] > thr}
    IN  Ranking(out, k, E, C, LAMBDA a, b : a > b)

\* thr < 0 stands for a threshold larger than every count (the default).
BotkAllowed(docs, n, k, thr, out) ==
    LET C == Counts(docs, n)
        E == {g \in DOMAIN C : thr < 0 \/ C[g] < thr}
    IN  Ranking(out, k, E, C, LAMBDA a, b : a < b)

\* --p-keep below 1: occurrences are passed over at random, so that some of E may be left out, but what is
\* listed is right.
BotkSampledAllowed(docs, n, k, thr, out) ==
    LET C == Counts(docs, n)
        listed == {out[i].g : i \in 1..Len(out)}
    IN  /\ listed \subseteq {g \in DOMAIN C : thr < 0 \/ C[g] < thr}
        /\ Ranking(out, Min2(k, Len(out)), listed, C, LAMBDA a, b : a < b)

\* With collisions counts may only be too high.
NeverTooLow(docs, n, k, thr, out) ==
    LET C == Counts(docs, n)
        listed == {out[i].g : i \in 1..Len(out)}
    IN  /\ \A i \in 1..Len(out) : out[i].g \in DOMAIN C /\ out[i].c >= C[out[i].g]
        /\ Cardinality(listed) = Len(out)
        /\ Len(out) <= k
        /\ \A g \in DOMAIN C \ listed :
              C[g] > thr => Len(out) = k /\ (k = 0 \/ C[g] <= out[Len(out)].c)

\* botk: collisions can only make counts too high as well
BotkNeverTooLow(docs, n, k, out) ==
    LET C == Counts(docs, n)
    IN  /\ Len(out) <= k
        /\ \A i \in 1..Len(out) : out[i].g \in DOMAIN C /\ out[i].c >= C[out[i].g]
        /\ Cardinality({out[i].g : i \in 1..Len(out)}) = Len(out)

UniqueAllowed(docs, n, estimate) ==
    LET D == Cardinality(Grams(docs, n))
        diff == IF estimate > D THEN estimate - D ELSE D - estimate
    IN  100 * diff <= 2 * D + 100

-----------------------------------------------------------------------------
(* stats *)

TotalTokens(docs) == SumOver(1..Len(docs), LAMBDA j : docs[j].m * Len(Text(docs[j])))
TotalDocs(docs) == SumOver(1..Len(docs), LAMBDA j : docs[j].m)
TotalBytes(docs) == SumOver(1..Len(docs), LAMBDA j : docs[j].m * docs[j].b)
TextLengths(docs) == {Len(docs[j].t) : j \in {x \in 1..Len(docs) : docs[x].has = 1}}

\* The line on which each document (of which there are m in a row) starts
Starts(docs) == FoldLeft(LAMBDA acc, d : Append(acc, acc[Len(acc)] + d.m), <<1>>, docs)

\* The pointers to the documents with exactly `num` tokens: [p |-> file, l |-> line, n |-> tokens]
Pointers(files, num) ==
    UNION {LET at == Starts(files[f])
           IN  UNION {{[p |-> f, l |-> at[i] + k, n |-> num] : k \in 0..(files[f][i].m - 1)} :
                        i \in {x \in 1..Len(files[f]) : files[f][x].has = 1 /\ Len(files[f][x].t) = num}} :
           f \in 1..Len(files)}

IsListing(seq, S) == Range(seq) = S /\ Len(seq) = Cardinality(S)

StatsTotalsAllowed(files, out) ==
    LET docs == FlattenSeq(files)
        lens == TextLengths(docs)
    IN  /\ out.tokens = TotalTokens(docs)
        /\ out.docs = TotalDocs(docs)
        /\ out.bytes = TotalBytes(docs)
        /\ lens # {} => out.max = Max(lens) /\ out.min = Min(lens)

StatsListsAllowed(files, out) ==
    LET lens == TextLengths(FlattenSeq(files))
    IN  IF lens = {} THEN out.maxdocs = <<>> /\ out.mindocs = <<>>
        ELSE /\ out.max = Max(lens)
             /\ out.min = Min(lens)
             /\ IsListing(out.maxdocs, Pointers(files, Max(lens)))
             /\ IsListing(out.mindocs, Pointers(files, Min(lens)))

-----------------------------------------------------------------------------
(* count *)

\* out is a list of [s |-> tokens of the search string, c |-> count]
CountAllowed(docs, searches, out) ==
    /\ {out[i].s : i \in 1..Len(out)} = Range(searches)
    /\ Len(out) = Cardinality(Range(searches))
    /\ \A i \in 1..Len(out) : out[i].c = Total(docs, out[i].s)
=============================================================================
