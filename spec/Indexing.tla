------------------------------ MODULE Indexing ------------------------------
(* C27: a file is read line by line, documents without text are left out,    *)
(* the others are sent in chunks by concurrent threads, with ids that depend *)
(* on the line, as create operations; the results are looked at in order.    *)
(* Runs are interrupted or stop at an error, and are started again, perhaps  *)
(* skipping documents.                                                       *)
(* Variant: "ok", or                                                         *)
(*   "put"       existing documents are replaced                             *)
(*   "fresh"     ids are made up by the server                               *)
(*   "skipids"   lines are numbered after the skipped ones                   *)
(*   "ignore"    errors other than conflicts are ignored, too                *)
(*   "conflict"  conflicts are errors                                        *)
(*   "lastchunk" the last chunk is not sent when it is not full              *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS Lines,      \* number of lines
          Chunk, Threads, MaxRuns, MaxCrashes, MaxErrors, Variant

VARIABLES empty,      \* lines without text
          index,      \* set of <<id, line, run>>
          pos,        \* lines read in this run
          skip,       \* documents to skip in this run
          buf,        \* chunk that is collected
          sent,       \* chunks at the threads: set of <<number, lines>>
          nsent,
          res,        \* results: [number of chunk -> TRUE if there was an error]
          seen,       \* results that were looked at
          status, run, errors, crashes, fresh
vars == <<empty, index, pos, skip, buf, sent, nsent, res, seen, status, run, errors, crashes, fresh>>

Docs == (1..Lines) \ empty
Nth(n) == {l \in Docs : Cardinality({m \in Docs : m < l}) < n}     \* the first n documents
Skipped == Nth(skip)
IdOf(l) == CASE Variant = "skipids" -> l - (IF Skipped = {} THEN 0 ELSE Max(Skipped))
             [] OTHER -> l
Has(l) == \E x \in index : x[1] = l

Init == /\ empty \in SUBSET (1..Lines)
        /\ index \in {{}, {<<1, 99, 0>>}}
        /\ pos = 0 /\ skip = 0 /\ buf = <<>> /\ sent = {} /\ nsent = 0 /\ res = << >> /\ seen = 0
        /\ status = "run" /\ run = 1 /\ errors = 0 /\ crashes = 0 /\ fresh = 100

Read == /\ status = "run" /\ pos < Lines /\ Cardinality(sent) < Threads
        /\ pos' = pos + 1
        /\ LET l == pos + 1
               b == IF l \in Docs \ Skipped THEN Append(buf, l) ELSE buf
               full == Len(b) = Chunk \/ (l = Lines /\ b # <<>> /\ Variant # "lastchunk")
           IN  IF full THEN buf' = <<>> /\ sent' = sent \cup {<<nsent + 1, b>>} /\ nsent' = nsent + 1
               ELSE buf' = b /\ UNCHANGED <<sent, nsent>>
        /\ UNCHANGED <<empty, index, skip, res, seen, status, run, errors, crashes, fresh>>

\* the server executes a chunk; an error concerns one of its documents
Exec == \E c \in sent : \E err \in {0} \cup (IF errors < MaxErrors THEN {c[2][i] : i \in 1..Len(c[2])} ELSE {}) :
    LET ls == {c[2][i] : i \in 1..Len(c[2])} \ {err}
        newid(l) == IF Variant = "fresh" THEN fresh + l ELSE IdOf(l)
        conflicts == {l \in ls : Has(newid(l))}
        put == IF Variant = "put" THEN ls ELSE ls \ conflicts
    IN  /\ index' = {x \in index : ~\E l \in put : x[1] = newid(l)} \cup {<<newid(l), l, run>> : l \in put}
        /\ fresh' = fresh + 10
        /\ sent' = sent \ {c}
        /\ res' = res @@ (c[1] :> ((err # 0 /\ Variant # "ignore") \/ (Variant = "conflict" /\ conflicts # {})))
        /\ errors' = IF err # 0 THEN errors + 1 ELSE errors
        /\ UNCHANGED <<empty, pos, skip, buf, nsent, seen, status, run, crashes>>

Look == /\ status = "run" /\ (seen + 1) \in DOMAIN res
        /\ seen' = seen + 1
        /\ status' = IF res[seen + 1] THEN "failed" ELSE status
        /\ UNCHANGED <<empty, index, pos, skip, buf, sent, nsent, res, run, errors, crashes, fresh>>

End == /\ status = "run" /\ pos = Lines /\ sent = {} /\ seen = nsent
       /\ status' = "done"
       /\ UNCHANGED <<empty, index, pos, skip, buf, sent, nsent, res, seen, run, errors, crashes, fresh>>

Crash == /\ status = "run" /\ crashes < MaxCrashes
         /\ status' = "down" /\ crashes' = crashes + 1
         /\ UNCHANGED <<empty, index, pos, skip, buf, sent, nsent, res, seen, run, errors, fresh>>

\* the longest part of the documents that is in the index for sure
Prefix == Max({n \in 0..Cardinality(Docs) : \A l \in Nth(n) : Has(l)})
Again == /\ status # "run" /\ run < MaxRuns
         /\ run' = run + 1 /\ status' = "run"
         /\ skip' \in {0, Prefix}
         /\ pos' = 0 /\ buf' = <<>> /\ sent' = {} /\ nsent' = 0 /\ res' = << >> /\ seen' = 0
         /\ UNCHANGED <<empty, index, errors, crashes, fresh>>

Next == Read \/ Exec \/ Look \/ End \/ Crash \/ Again \/ (status # "run" /\ run = MaxRuns /\ UNCHANGED vars)

\* a document for every line with text, under its id, and the one that was there first stays
OneEach == \A x, y \in index : x[2] = y[2] => x = y
OwnIds == \A x \in index : x[2] \in Docs => x[1] = x[2]
Complete == status = "done" => \A l \in Docs : Has(l)
Only == \A x \in index : x[2] \in Docs \cup {99}
Kept == [][\A x \in index : x \in index']_vars
NoAlarm == (status = "failed") => errors > 0
=============================================================================
