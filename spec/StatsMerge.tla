----------------------------- MODULE StatsMerge -----------------------------
(* C07, C08, C13: stats. Every worker counts a file into local statistics,   *)
(* initialised from the shared maximum/minimum, and merges them at the end   *)
(* of the file; an attempt that fails is thrown away and repeated.           *)
(* One action per atomic step of src/cmd/stats.rs and of the retry loop in   *)
(* src/cmd/util.rs. Only the maximum side is modelled for documents (the     *)
(* minimum is symmetric and uses its own cells).                             *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

CONSTANTS
    Files,      \* sequence of sequences of document lengths
    Faults,     \* file -> number of attempts that fail
    FailAfter,  \* an attempt that fails does so after this many documents
    MaxRetries,
    W,
    Variant

NF == Len(Files)
Jobs == 1..NF
Workers == 1..W

VARIABLES
    queue, w, \* worker -> [job, pc, pos, att, max, docs, n, sum]
    gmax, gdocs, gn, gsum, lock,   \* shared: maximum, pointers <<file, line, length>>, documents, tokens
    early, finished, phase, result

vars == <<queue, w, gmax, gdocs, gn, gsum, lock, early, finished, phase, result>>

Idle == [job |-> 0, pc |-> "idle", pos |-> 0, att |-> 0, max |-> 0, docs |-> <<>>, n |-> 0, sum |-> 0]

Init ==
    /\ queue = [i \in 1..NF |-> i]
    /\ w = [i \in Workers |-> Idle]
    /\ gmax = 0 /\ gdocs = <<>> /\ gn = 0 /\ gsum = 0 /\ lock = 0
    /\ early = FALSE /\ finished = {} /\ phase = "run" /\ result = [ok |-> FALSE]

Begin(j, att) == [job |-> j, pc |-> "line", pos |-> 1, att |-> att, max |-> gmax, docs |-> <<>>, n |-> 0, sum |-> 0]

Take(i) ==
    /\ w[i].pc = "idle" /\ queue # <<>>
    /\ w' = [w EXCEPT ![i] = Begin(Head(queue), 1)]
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<gmax, gdocs, gn, gsum, lock, early, finished, phase, result>>

Fails(i) == w[i].att <= Faults[w[i].job] /\ w[i].pos > FailAfter

Fail(i) ==
    /\ w[i].pc = "line" /\ Fails(i)
    /\ IF w[i].att > MaxRetries
       THEN /\ early' = TRUE /\ finished' = finished \cup {w[i].job} /\ w' = [w EXCEPT ![i] = Idle]
       ELSE /\ w' = [w EXCEPT ![i] = IF Variant = "keep"
                                     THEN [Begin(w[i].job, w[i].att + 1) EXCEPT !.n = w[i].n, !.sum = w[i].sum,
                                                                               !.docs = w[i].docs]
                                     ELSE Begin(w[i].job, w[i].att + 1)]
            /\ UNCHANGED <<early, finished>>
    /\ UNCHANGED <<queue, gmax, gdocs, gn, gsum, lock, phase, result>>

Doc(i) ==
    /\ w[i].pc = "line" /\ ~Fails(i) /\ w[i].pos <= Len(Files[w[i].job])
    /\ LET len == Files[w[i].job][w[i].pos]
           m == IF len > w[i].max THEN len ELSE w[i].max
       IN  w' = [w EXCEPT ![i].pos = @ + 1,
                          ![i].max = IF early THEN @ ELSE m,
                          ![i].n = IF early THEN @ ELSE @ + 1,
                          ![i].sum = IF early THEN @ ELSE @ + len,
                          ![i].docs = IF ~early /\ len = m THEN Append(@, <<w[i].job, w[i].pos, len>>) ELSE @]
    /\ UNCHANGED <<queue, gmax, gdocs, gn, gsum, lock, early, finished, phase, result>>

\* the merge: counters, then maximum, then prune under the lock, then add under the lock
EndOfFile(i) ==
    /\ w[i].pc = "line" /\ ~Fails(i) /\ w[i].pos > Len(Files[w[i].job])
    /\ gn' = gn + w[i].n /\ gsum' = gsum + w[i].sum
    /\ w' = [w EXCEPT ![i].pc = "max"]
    /\ UNCHANGED <<queue, gmax, gdocs, lock, early, finished, phase, result>>

MergeMax(i) ==
    /\ w[i].pc = "max"
    /\ gmax' = IF w[i].max > gmax THEN w[i].max ELSE gmax
    /\ w' = [w EXCEPT ![i].pc = "prune"]
    /\ UNCHANGED <<queue, gdocs, gn, gsum, lock, early, finished, phase, result>>

Keep(s, m) == SelectSeq(s, LAMBDA d : d[3] >= m)
\* the broken loop of the original code: while the first is too short, drop the LAST
RECURSIVE PopBack(_, _)
PopBack(s, m) == IF s # <<>> /\ s[1][3] < m THEN PopBack(SubSeq(s, 1, Len(s) - 1), m) ELSE s

\* reads the maximum, then prunes what is shorter (while holding the list's lock)
PruneBegin(i) ==
    /\ w[i].pc = "prune"
    /\ w' = [w EXCEPT ![i].pc = "pruning", ![i].pos = gmax]
    /\ UNCHANGED <<queue, gmax, gdocs, gn, gsum, lock, early, finished, phase, result>>

PruneEnd(i) ==
    /\ w[i].pc = "pruning" /\ lock = 0
    /\ gdocs' = CASE Variant = "popback" -> PopBack(gdocs, w[i].pos)
                  [] OTHER -> Keep(gdocs, w[i].pos)
    /\ w' = [w EXCEPT ![i].pc = "add"]
    /\ UNCHANGED <<queue, gmax, gn, gsum, lock, early, finished, phase, result>>

AddBegin(i) ==
    /\ w[i].pc = "add"
    /\ w' = [w EXCEPT ![i].pc = "adding", ![i].pos = IF Variant \in {"nomax", "lazy"} THEN 0 ELSE gmax]
    /\ UNCHANGED <<queue, gmax, gdocs, gn, gsum, lock, early, finished, phase, result>>

AddEnd(i) ==
    /\ w[i].pc = "adding" /\ lock = 0
    /\ gdocs' = gdocs \o Keep(w[i].docs, w[i].pos)
    /\ finished' = finished \cup {w[i].job}
    /\ w' = [w EXCEPT ![i] = Idle]
    /\ UNCHANGED <<queue, gmax, gn, gsum, lock, early, phase, result>>

Join ==
    /\ phase = "run" /\ finished = Jobs
    /\ phase' = "done"
    /\ result' = IF early /\ Variant # "ignoreerror" THEN [ok |-> FALSE]
                 ELSE [ok |-> TRUE, n |-> gn, sum |-> gsum, max |-> gmax,
                       docs |-> IF Variant \in {"nofinalprune", "lazy"} THEN gdocs ELSE Keep(gdocs, gmax)]
    /\ UNCHANGED <<queue, w, gmax, gdocs, gn, gsum, lock, early, finished>>

Done == phase = "done" /\ UNCHANGED vars

Step(i) == Take(i) \/ Fail(i) \/ Doc(i) \/ EndOfFile(i) \/ MergeMax(i) \/ PruneBegin(i) \/ PruneEnd(i)
           \/ AddBegin(i) \/ AddEnd(i)
Next == (\E i \in Workers : Step(i)) \/ Join \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Join) /\ \A i \in Workers : WF_vars(Step(i))

-----------------------------------------------------------------------------
AllDocs == UNION {{<<f, l, Files[f][l]>> : l \in 1..Len(Files[f])} : f \in Jobs}
Longest == IF AllDocs = {} THEN 0 ELSE Max({d[3] : d \in AllDocs})
Hopeless == \E f \in Jobs : Faults[f] > MaxRetries

TotalsExact == result.ok => /\ result.n = Cardinality(AllDocs)
                            /\ result.sum = FoldSet(LAMBDA d, a : a + d[3], 0, AllDocs)
                            /\ result.max = Longest
ListExact == result.ok => LET L == {d \in AllDocs : d[3] = Longest}
                          IN  Range(result.docs) = L /\ Len(result.docs) = Cardinality(L)
FailsIffHopeless == phase = "done" => (result.ok <=> ~Hopeless)
Terminates == <>(phase = "done")
=============================================================================
