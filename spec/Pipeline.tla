------------------------------ MODULE Pipeline ------------------------------
(* C01-C03, C12, C14: one pass of topk. The main thread submits one job per  *)
(* file, drops its sender and collects; workers take jobs, count n-grams in  *)
(* the shared table, keep a local top-k and finally send it, filtered by the *)
(* minimum count the collector publishes, through a bounded channel.         *)
(* One action per atomic step of src/cmd/topk.rs and src/cmd/util.rs. The    *)
(* table has no collisions here (see Counter for its own steps).             *)
EXTENDS TopKOps, TLC, Json

CONSTANTS
    Files,      \* sequence of files; a file is a sequence of n-grams (numbers); 0 is a corrupt line
    Missing,    \* set of indices of files that do not exist
    W,          \* number of workers
    K, Thr, Cap,
    Rare,    \* TRUE: the second pass of botk (counts are fixed, "bigger" is rarer)
    Emit,
    Variant

Workers == 1..W
NF == Len(Files)
Jobs == 1..NF

AllGrams == UNION {{Files[f][i] : i \in 1..Len(Files[f])} : f \in Jobs} \ {0}
TotalOf(g) == FoldSet(LAMBDA f, a : a + Cardinality({i \in 1..Len(Files[f]) : Files[f][i] = g}), 0, Jobs)
Big == 10
\* what the entries of the lists are ordered by
Score(g) == IF Rare THEN Big - TotalOf(g) ELSE TotalOf(g)
Threshold == IF Rare THEN Big - Thr ELSE Thr

VARIABLES
    main,      \* "submit", "collect", "join", "done"
    next,      \* next file to submit
    queue,     \* submitted jobs
    w,         \* worker -> [job, pc, pos, cnt, loc, out, err]
    table,     \* n-gram -> count
    chan, top, \* the channel and the collector's list
    minAtomic, \* the minimum the collector publishes
    finished,  \* jobs whose closure has been dropped (with its sender)
    early,     \* early_exit
    mainTx,    \* main still has a sender
    status, result, hist

vars == <<main, next, queue, w, table, chan, top, minAtomic, finished, early, mainTx, status, result, hist>>
View == <<main, next, queue, w, table, chan, top, minAtomic, finished, early, mainTx, status, result>>

Idle == [job |-> 0, pc |-> "idle", pos |-> 0, cnt |-> 0, loc |-> EmptyTopK, out |-> <<>>]

Init ==
    /\ main = "submit" /\ next = 1 /\ queue = <<>>
    /\ w = [i \in Workers |-> Idle]
    /\ table = [g \in AllGrams |-> 0]
    /\ chan = <<>> /\ top = EmptyTopK /\ minAtomic = 1
    /\ finished = {} /\ early = FALSE /\ mainTx = TRUE
    /\ status = -1 /\ result = {} /\ hist = <<>>

Log(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist

-----------------------------------------------------------------------------
(* main thread *)

Submit ==
    /\ main = "submit" /\ next <= NF /\ next \notin Missing
    /\ queue' = Append(queue, next)
    /\ next' = next + 1
    /\ Log("x0")
    /\ UNCHANGED <<main, w, table, chan, top, minAtomic, finished, early, mainTx, status, result>>

SubmitMissing ==                              \* bail!: main returns with an error
    /\ main = "submit" /\ next <= NF /\ next \in Missing
    /\ early' = TRUE
    /\ main' = "done" /\ status' = 1
    /\ UNCHANGED <<next, queue, w, table, chan, top, minAtomic, finished, mainTx, result, hist>>

DropTx ==
    /\ main = "submit" /\ next > NF
    /\ main' = IF Variant = "joinfirst" THEN "joinfirst" ELSE "collect"
    /\ mainTx' = (Variant = "nodrop")
    /\ Log("x0")
    /\ UNCHANGED <<next, queue, w, table, chan, top, minAtomic, finished, early, status, result>>

JoinFirst ==                                  \* broken: waits for the workers before receiving
    /\ main = "joinfirst" /\ finished = Jobs
    /\ main' = "collect"
    /\ UNCHANGED <<next, queue, w, table, chan, top, minAtomic, finished, early, mainTx, status, result, hist>>

Recv ==
    /\ main = "collect" /\ chan # <<>>
    /\ LET t == InsertTopK(top, K, Head(chan)[2], Head(chan)[1])
       IN  top' = t /\ minAtomic' = t.min
    /\ chan' = Tail(chan)
    /\ Log("r0")
    /\ UNCHANGED <<main, next, queue, w, table, finished, early, mainTx, status, result>>

Disconnected ==
    /\ main = "collect" /\ chan = <<>> /\ finished = Jobs /\ ~mainTx
    /\ main' = "join"
    /\ UNCHANGED <<next, queue, w, table, chan, top, minAtomic, finished, early, mainTx, status, result, hist>>

StopEarly ==                                  \* broken: stops once all jobs are done, whatever is in the channel
    /\ Variant = "stopearly" /\ main = "collect" /\ finished = Jobs
    /\ main' = "join"
    /\ UNCHANGED <<next, queue, w, table, chan, top, minAtomic, finished, early, mainTx, status, result, hist>>

Join ==
    /\ main = "join" /\ finished = Jobs
    /\ main' = "done"
    /\ IF early /\ Variant # "ignoreerror" THEN status' = 1 /\ UNCHANGED result
       ELSE status' = 0 /\ result' = top.e
    /\ UNCHANGED <<next, queue, w, table, chan, top, minAtomic, finished, early, mainTx, hist>>

-----------------------------------------------------------------------------
(* workers *)

Alive == main # "done"     \* the process ends with its main thread

TakeJob(i) ==
    /\ Alive /\ w[i].pc = "idle" /\ queue # <<>>
    /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.job = Head(queue), !.pc = "line", !.pos = 1]]
    /\ queue' = Tail(queue)
    /\ Log("l" \o ToString(i))
    /\ UNCHANGED <<main, next, table, chan, top, minAtomic, finished, early, mainTx, status, result>>

\* next n-gram of the file (each line has one n-gram here), or the end of the file
Line(i) ==
    /\ Alive /\ w[i].pc = "line" /\ w[i].pos <= Len(Files[w[i].job])
    /\ LET g == Files[w[i].job][w[i].pos]
       IN  IF early THEN /\ w' = [w EXCEPT ![i].pos = @ + 1]
                         /\ UNCHANGED <<table, early, finished>>
           ELSE IF g = 0 THEN                      \* corrupt line: the job fails
                /\ early' = TRUE
                /\ w' = [w EXCEPT ![i] = Idle]
                /\ finished' = finished \cup {w[i].job}
                /\ UNCHANGED table
           ELSE /\ table' = IF Rare THEN table ELSE [table EXCEPT ![g] = @ + 1]
                /\ w' = [w EXCEPT ![i].pc = "filter", ![i].cnt = IF Rare THEN Score(g) ELSE table'[g]]
                /\ UNCHANGED <<early, finished>>
    /\ Log("a" \o ToString(i))
    /\ UNCHANGED <<main, next, queue, chan, top, minAtomic, mainTx, status, result>>

Passes(c, local) ==
    CASE Variant = "strictmin" -> c > Threshold /\ c >= local /\ c > minAtomic
      [] Variant = "strictlocal" -> c > Threshold /\ c > local /\ c >= minAtomic
      [] OTHER -> c > Threshold /\ c >= local /\ c >= minAtomic

Filter(i) ==
    /\ Alive /\ w[i].pc = "filter"
    /\ w' = [w EXCEPT ![i].pc = "line", ![i].pos = @ + 1,
                      ![i].loc = IF Passes(w[i].cnt, w[i].loc.min)
                                 THEN InsertTopK(w[i].loc, K, Files[w[i].job][w[i].pos], w[i].cnt)
                                 ELSE w[i].loc]
    /\ Log("a" \o ToString(i))
    /\ UNCHANGED <<main, next, queue, table, chan, top, minAtomic, finished, early, mainTx, status, result>>

StartSync(i) ==
    /\ Alive /\ w[i].pc = "line" /\ w[i].pos > Len(Files[w[i].job])
    /\ w' = [w EXCEPT ![i].pc = "sync", ![i].out = Descending(w[i].loc.e)]
    /\ UNCHANGED <<main, next, queue, table, chan, top, minAtomic, finished, early, mainTx, status, result, hist>>

Skip(i) ==                                    \* filtered out by the published minimum
    /\ Alive /\ w[i].pc = "sync" /\ w[i].out # <<>>
    /\ ~(Head(w[i].out)[1] > Threshold /\ Head(w[i].out)[1] >= minAtomic)
    /\ w' = [w EXCEPT ![i].out = Tail(@)]
    /\ UNCHANGED <<main, next, queue, table, chan, top, minAtomic, finished, early, mainTx, status, result, hist>>

DecideSend(i) ==
    /\ Alive /\ w[i].pc = "sync" /\ w[i].out # <<>>
    /\ Head(w[i].out)[1] > Threshold /\ Head(w[i].out)[1] >= minAtomic
    /\ w' = [w EXCEPT ![i].pc = "send"]
    /\ Log("a" \o ToString(i))
    /\ UNCHANGED <<main, next, queue, table, chan, top, minAtomic, finished, early, mainTx, status, result>>

Send(i) ==
    /\ Alive /\ w[i].pc = "send"
    /\ \/ /\ Len(chan) < Cap
          /\ chan' = Append(chan, Head(w[i].out))
       \/ /\ Variant = "trysend" /\ Len(chan) >= Cap     \* broken: drops what does not fit
          /\ UNCHANGED chan
    /\ w' = [w EXCEPT ![i].out = Tail(@), ![i].pc = "sync"]
    /\ Log("s" \o ToString(i))
    /\ UNCHANGED <<main, next, queue, table, top, minAtomic, finished, early, mainTx, status, result>>

Finish(i) ==                                  \* the closure is dropped, and with it the sender
    /\ Alive /\ w[i].pc = "sync" /\ w[i].out = <<>>
    /\ w' = [w EXCEPT ![i] = Idle]
    /\ finished' = finished \cup {w[i].job}
    /\ Log("x" \o ToString(i))
    /\ UNCHANGED <<main, next, queue, table, chan, top, minAtomic, early, mainTx, status, result>>

Done ==                                       \* explicit stuttering, so that a deadlock is a real one
    /\ main = "done" /\ ~Emit
    /\ UNCHANGED vars

MainStep == Submit \/ SubmitMissing \/ DropTx \/ JoinFirst \/ Recv \/ Disconnected \/ StopEarly \/ Join
WorkerStep(i) == TakeJob(i) \/ Line(i) \/ Filter(i) \/ StartSync(i) \/ Skip(i) \/ DecideSend(i) \/ Send(i) \/ Finish(i)
Next == MainStep \/ (\E i \in Workers : WorkerStep(i)) \/ Done

Spec == Init /\ [][Next]_vars /\ WF_vars(MainStep) /\ \A i \in Workers : WF_vars(WorkerStep(i))

-----------------------------------------------------------------------------
HasFailure == Missing # {} \/ \E f \in Jobs : \E i \in 1..Len(Files[f]) : Files[f][i] = 0

\* exactly one result, whatever the schedule
Expected == Largest({<<Score(g), g>> : g \in {x \in AllGrams : Score(x) > Threshold}}, K)

ExactResult == status = 0 => result = Expected
NoResultOnFailure == HasFailure => status # 0
NoFalseFailure == ~HasFailure => status # 1
\* the published minimum is safe for what is still to come
MinNeverTooHigh == \A p \in Expected : minAtomic <= p[1] \/ HasFailure
Terminates == <>(main = "done")

\* for generating schedules: print every finished behaviour's history
EmitDone == (Emit /\ main = "done") => PrintT(<<"H", ToJson(hist)>>)
=============================================================================
