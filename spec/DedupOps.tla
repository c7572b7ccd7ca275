------------------------------ MODULE DedupOps ------------------------------
(* C20, C21: which outputs of the deduplication and decontamination tools    *)
(* are allowed. A shard is a sequence of documents [t |-> text, src |->      *)
(* source]; texts are positive numbers, 0 is a missing (null) text.          *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

TextIdx(shard) == {i \in 1..Len(shard) : shard[i].t # 0}
AllDocs(shards) == UNION {{<<s, i>> : i \in TextIdx(shards[s])} : s \in 1..Len(shards)}
TextOf(shards, p) == shards[p[1]][p[2]].t

\* The texts that a block list made from files contains
TextsIn(shards) == {TextOf(shards, p) : p \in AllDocs(shards)}
RepeatedIn(shards) == {t \in TextsIn(shards) : Cardinality({p \in AllDocs(shards) : TextOf(shards, p) = t}) > 1}

\* kept: set of documents <<shard, index>>
KeptAllowed(shards, block, keep, kept) ==
    /\ kept \subseteq AllDocs(shards)
    /\ \A p \in AllDocs(shards) : TextOf(shards, p) \notin block => p \in kept
    /\ LET listed == {p \in kept : TextOf(shards, p) \in block}
           texts == {TextOf(shards, p) : p \in listed}
       IN  IF keep
           THEN /\ texts = block \cap TextsIn(shards)           \* one of each ...
                /\ Cardinality(listed) = Cardinality(texts)     \* ... and only one
           ELSE listed = {}

Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Total(S) == FoldSet(LAMBDA x, a : a + x[2], 0, S)   \* S: pairs <<key, number>>
Range2(s) == {s[i] : i \in 1..Len(s)}

(* A case: shards, block (list of texts), keep, attrs (1: every document is  *)
(* listed with a mark); out[s] = sequence of <<index of the document, 1 if   *)
(* it is marked as dropped>>; perfile[s], persource (sequence of <<source,   *)
(* number>>), total: the reported numbers of dropped documents.              *)
DedupAllowed(c) ==
    LET n == Len(c.shards)
        Idx(s) == [i \in 1..Len(c.out[s]) |-> c.out[s][i][1]]
        Kept == UNION {{<<s, c.out[s][i][1]>> : i \in {j \in 1..Len(c.out[s]) : c.out[s][j][2] = 0}} : s \in 1..n}
        Block == CASE c.blockfrom = "list" -> Range2(c.block)
                   [] c.blockfrom = "texts" -> TextsIn(c.other)
                   [] c.blockfrom = "repeated" -> RepeatedIn(c.shards)
        Dropped(s) == {i \in TextIdx(c.shards[s]) : <<s, i>> \notin Kept}
    IN  /\ Len(c.out) = n
        /\ \A s \in 1..n : Increasing(Idx(s))
        /\ c.attrs = 1 => \A s \in 1..n : Range2(Idx(s)) = TextIdx(c.shards[s])
        /\ c.attrs = 0 => \A s \in 1..n : \A i \in 1..Len(c.out[s]) : c.out[s][i][2] = 0
        /\ KeptAllowed(c.shards, Block, c.keep = 1, Kept)
        /\ c.reported = 1 =>
            /\ c.total = Total({<<s, Cardinality(Dropped(s))>> : s \in 1..n})
            /\ c.perfile = [s \in 1..n |-> Cardinality(Dropped(s))]
            /\ LET Src == {x[1] : x \in Range2(c.persource)}
                   Num(x) == Cardinality(UNION {{<<s, i>> : i \in {j \in Dropped(s) : c.shards[s][j].src = x}} : s \in 1..n})
               IN  /\ Cardinality(Src) = Len(c.persource)
                   /\ \A x \in Range2(c.persource) : x[2] = Num(x[1])
                   /\ c.total = Total({<<x, Num(x)>> : x \in Src})

(* Shards with the same file name, or an output directory that holds shards:  *)
(* the tool refuses and leaves everything as it is (intact), or keeps what it *)
(* has to. kept: sequence of documents in the output directory.               *)
ClashAllowed(c) ==
    IF c.failed = 1 THEN c.intact = 1
    ELSE /\ Cardinality(Range2(c.kept)) = Len(c.kept)
         /\ KeptAllowed(c.shards, IF c.blockfrom = "list" THEN Range2(c.block) ELSE RepeatedIn(c.shards), TRUE, Range2(c.kept))

\* The list that deduplicate.py (repeated = 1) or decontaminate.py builds: lines as texts, 0 for anything else.
BlocklistAllowed(c) ==
    LET want == IF c.repeated = 1 THEN RepeatedIn(c.shards) ELSE TextsIn(c.shards)
    IN  Range2(c.list) = want
=============================================================================
