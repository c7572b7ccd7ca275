----------------------------- MODULE MapReduce ------------------------------
(* C25: mappers, each reading its shard and classifying it in batches, print *)
(* lines; one reducer reads the lines in whatever order they arrive. Both    *)
(* kinds of mappers: those that print a line for every document and those    *)
(* that print their sums at the end.                                         *)
(* Variant: "ok", or                                                         *)
(*   "dropfull"   a full batch is replaced before it was classified          *)
(*   "nolast"     what is left after the last full batch is not classified   *)
(*   "carry"      the batch is not emptied after it was classified           *)
(*   "lose"       the document that finds a full batch is not put into one   *)
(*   "overwrite"  the reducer keeps the last line of a category              *)
(*   "lines"      the reducer counts lines instead of adding their numbers   *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Mappers, Cat, MaxBatch, MaxShard, Variant

\* documents: categories 1..Cat, 0 is a blank document
VARIABLES shard,    \* [mapper] documents not read yet
          all,      \* every document (not changing)
          bs,       \* size of the batches
          batch,    \* [mapper] batch
          sums,     \* [mapper] sums by category
          lines,    \* lines on their way to the reducer: bag as a sequence of <<category, number>>
          over,     \* mappers that have ended
          total     \* what the reducer has

vars == <<shard, all, bs, batch, sums, lines, over, total>>
Zero == [k \in 1..Cat |-> 0]
Seqs == UNION {[1..n -> 0..Cat] : n \in 0..MaxShard}

Init == /\ shard \in [1..Mappers -> Seqs]
        /\ all = shard
        /\ bs \in 1..MaxBatch
        /\ batch = [m \in 1..Mappers |-> <<>>]
        /\ sums = [m \in 1..Mappers |-> Zero]
        /\ lines = <<>> /\ over = {} /\ total = Zero

Classify(s, b) == FoldLeft(LAMBDA a, d : [a EXCEPT ![d] = @ + 1], s, b)

Read(m) ==
    /\ m \notin over /\ shard[m] # <<>>
    /\ LET d == Head(shard[m])
           full == Len(batch[m]) >= bs
           s == IF full /\ Variant # "dropfull" THEN Classify(sums[m], batch[m]) ELSE sums[m]
           b == IF full /\ Variant # "carry" THEN <<>> ELSE batch[m]
           b2 == IF d = 0 \/ (full /\ Variant = "lose") THEN b ELSE Append(b, d)
       IN  /\ sums' = [sums EXCEPT ![m] = s]
           /\ batch' = [batch EXCEPT ![m] = b2]
    /\ shard' = [shard EXCEPT ![m] = Tail(@)]
    /\ UNCHANGED <<all, bs, lines, over, total>>

End(m) ==
    /\ m \notin over /\ shard[m] = <<>>
    /\ LET s == IF Variant = "nolast" THEN sums[m] ELSE Classify(sums[m], batch[m])
       IN  lines' = lines \o SetToSeq({<<k, s[k]>> : k \in {j \in 1..Cat : s[j] > 0}})
    /\ over' = over \cup {m}
    /\ UNCHANGED <<shard, all, bs, batch, sums, total>>

Reduce ==
    /\ \E i \in 1..Len(lines) :
        /\ lines' = SubSeq(lines, 1, i - 1) \o SubSeq(lines, i + 1, Len(lines))
        /\ total' = [total EXCEPT ![lines[i][1]] =
                        CASE Variant = "overwrite" -> lines[i][2]
                          [] Variant = "lines" -> @ + 1
                          [] OTHER -> @ + lines[i][2]]
    /\ UNCHANGED <<shard, all, bs, batch, sums, over>>

Done == over = 1..Mappers /\ lines = <<>>
Next == Reduce \/ (Done /\ UNCHANGED vars) \/ \E m \in 1..Mappers : Read(m) \/ End(m)

InAll(k) == FoldLeft(LAMBDA a, m : a + Cardinality({i \in 1..Len(all[m]) : all[m][i] = k}), 0, [m \in 1..Mappers |-> m])
Right == Done => \A k \in 1..Cat : total[k] = InAll(k)
Bounded == \A m \in 1..Mappers : Len(batch[m]) <= bs
Never2 == \A k \in 1..Cat : total[k] <= InAll(k)
=============================================================================
