----------------------------- MODULE EsBatches ------------------------------
(* C24: counting phrases in batches taken from one iterator, by a sequence   *)
(* of calls that share their arguments.                                      *)
(* Variant: "ok", or                                                         *)
(*   "toomany"  one phrase more than allowed is sent                         *)
(*   "drop"     the phrase with which a batch is found to be full is lost    *)
(*   "last"     a last batch that is not full is not sent                    *)
(*   "order"    results of a later batch are put before those of the others  *)
(*   "shared"   the filter for the c4 index is added to the caller's list    *)
(*   "keep"     results of an earlier call are kept                          *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS MaxPhrases, MaxSize, Calls, Variant

VARIABLES n, size,      \* of this call
          c4,           \* the index of this call is c4
          next,         \* position of the iterator
          sent,         \* sizes of the batches that were sent
          out,          \* results so far: <<phrase, number of filter clauses>>
          filter,       \* length of the caller's filter list
          call, pc

vars == <<n, size, c4, next, sent, out, filter, call, pc>>
Fresh == /\ n' \in 1..MaxPhrases /\ size' \in 1..MaxSize /\ c4' \in BOOLEAN

Init == /\ n \in 1..MaxPhrases /\ size \in 1..MaxSize /\ c4 \in BOOLEAN
        /\ next = 1 /\ sent = <<>> /\ out = <<>> /\ filter = 1 /\ call = 1 /\ pc = "batch"

Batch ==
    /\ pc = "batch"
    /\ LET want == IF Variant = "toomany" THEN size + 1 ELSE size
           last == IF next + want - 1 > n THEN n ELSE next + want - 1
           clauses == filter + IF c4 THEN 1 ELSE 0
           part == [i \in 1..(last - next + 1) |-> <<next + i - 1, clauses>>]
       IN  IF part = <<>> \/ (Variant = "last" /\ Len(part) < size /\ sent # <<>>)
           THEN pc' = "done" /\ UNCHANGED <<next, sent, out, filter>>
           ELSE /\ out' = IF Variant = "order" THEN part \o out ELSE out \o part
                /\ sent' = Append(sent, Len(part))
                /\ next' = IF Variant = "drop" THEN last + 2 ELSE last + 1
                /\ filter' = IF Variant = "shared" /\ c4 /\ sent = <<>> THEN filter + 1 ELSE filter
                /\ pc' = pc
    /\ UNCHANGED <<n, size, c4, call>>

Again == /\ pc = "done" /\ call < Calls
         /\ Fresh
         /\ call' = call + 1 /\ next' = 1 /\ sent' = <<>> /\ pc' = "batch"
         /\ out' = IF Variant = "keep" THEN out ELSE <<>>
         /\ UNCHANGED filter

Next == Batch \/ Again \/ (pc = "done" /\ call = Calls /\ UNCHANGED vars)

Aligned == pc = "done" => out = [i \in 1..n |-> <<i, 1 + IF c4 THEN 1 ELSE 0>>]
Small == \A i \in 1..Len(sent) : sent[i] <= size
=============================================================================
