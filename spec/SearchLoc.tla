----------------------------- MODULE SearchLoc ------------------------------
(* C10, C03: search with locations. Workers count matches in a shared        *)
(* counter; the old value of the counter decides whether a match's location  *)
(* is kept (locations limit). Locations are collected per file and sent to   *)
(* the main thread, which receives until every sender is gone.               *)
EXTENDS Naturals, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

CONSTANTS Files,   \* matches per line, per file (sequence of sequences of numbers)
          Listing, \* sequence of file indices (a file may be listed twice)
          Limit,   \* -1: none
          W, Cap, Variant

NJ == Len(Listing)
Workers == 1..W
VARIABLES queue, w, count, chan, found, finished, main, status
vars == <<queue, w, count, chan, found, finished, main, status>>

Idle == [job |-> 0, pc |-> "idle", line |-> 0, m |-> 0, old |-> 0, collect |-> TRUE, loc |-> <<>>]

Init ==
    /\ queue = [i \in 1..NJ |-> i] /\ w = [i \in Workers |-> Idle] /\ count = 0 /\ chan = <<>>
    /\ found = [f \in 1..Len(Files) |-> <<>>] /\ finished = {} /\ main = "collect" /\ status = -1

Lines(i) == Files[Listing[w[i].job]]

Take(i) ==
    /\ w[i].pc = "idle" /\ queue # <<>>
    /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.job = Head(queue), !.pc = "line", !.line = 1]]
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<count, chan, found, finished, main, status>>

NextLine(i) ==
    /\ w[i].pc = "line"
    /\ w' = [w EXCEPT ![i] = IF @.line > Len(Lines(i)) THEN [@ EXCEPT !.pc = "send"]
                             ELSE IF @.m < Lines(i)[@.line] THEN [@ EXCEPT !.pc = "add"]
                             ELSE [@ EXCEPT !.line = @ + 1, !.m = 0, !.collect = TRUE]]
    /\ UNCHANGED <<queue, count, chan, found, finished, main, status>>

Keeps(i, old) == w[i].collect /\ (Limit < 0 \/ old < Limit)

Add(i) ==
    /\ w[i].pc = "add"
    /\ IF Variant = "loadfirst"
       THEN /\ w' = [w EXCEPT ![i].pc = "add2", ![i].old = count] /\ UNCHANGED count
       ELSE /\ count' = count + 1
            /\ w' = [w EXCEPT ![i].pc = "line", ![i].m = @ + 1, ![i].collect = Keeps(i, count),
                              ![i].loc = IF Keeps(i, count) THEN Append(@, <<w[i].line, w[i].m + 1>>) ELSE @]
    /\ UNCHANGED <<queue, chan, found, finished, main, status>>

Add2(i) ==                                     \* broken: decides by a value it has read before
    /\ w[i].pc = "add2"
    /\ count' = count + 1
    /\ w' = [w EXCEPT ![i].pc = "line", ![i].m = @ + 1, ![i].collect = Keeps(i, w[i].old),
                      ![i].loc = IF Keeps(i, w[i].old) THEN Append(@, <<w[i].line, w[i].m + 1>>) ELSE @]
    /\ UNCHANGED <<queue, chan, found, finished, main, status>>

Send(i) ==
    /\ w[i].pc = "send" /\ main # "done" /\ Len(chan) < Cap
    /\ chan' = Append(chan, <<Listing[w[i].job], w[i].loc>>)
    /\ w' = [w EXCEPT ![i].pc = "finish"]
    /\ UNCHANGED <<queue, count, found, finished, main, status>>

Finish(i) ==
    /\ w[i].pc = "finish"
    /\ finished' = finished \cup {w[i].job}
    /\ w' = [w EXCEPT ![i] = Idle]
    /\ UNCHANGED <<queue, count, chan, found, main, status>>

Recv ==
    /\ main = "collect" /\ chan # <<>>
    /\ LET f == Head(chan)[1] IN
       found' = [found EXCEPT ![f] = IF Variant = "insert" THEN Head(chan)[2] ELSE @ \o Head(chan)[2]]
    /\ chan' = Tail(chan)
    /\ UNCHANGED <<queue, w, count, finished, main, status>>

End ==
    /\ main = "collect" /\ finished = 1..NJ /\ (chan = <<>> \/ Variant = "stopearly")
    /\ main' = "done" /\ status' = 0
    /\ UNCHANGED <<queue, w, count, chan, found, finished>>

Done == main = "done" /\ UNCHANGED vars
Step(i) == Take(i) \/ NextLine(i) \/ Add(i) \/ Add2(i) \/ Send(i) \/ Finish(i)
Next == Recv \/ End \/ (\E i \in Workers : Step(i)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Recv \/ End) /\ \A i \in Workers : WF_vars(Step(i))

-----------------------------------------------------------------------------
SumSeq(s) == FoldSeq(LAMBDA a, b : a + b, 0, s)
TotalMatches == SumSeq([j \in 1..NJ |-> SumSeq(Files[Listing[j]])])
\* how often every match is to be found if there is no limit
Times(f) == Cardinality({j \in 1..NJ : Listing[j] = f})
Kept == SumSeq([f \in 1..Len(Files) |-> Len(found[f])])

CountExact == status = 0 => count = TotalMatches
LocationsExact ==
    status = 0 =>
      /\ Kept = IF Limit >= 0 /\ Limit < TotalMatches THEN Limit ELSE TotalMatches
      /\ \A f \in 1..Len(Files) : \A x \in Range(found[f]) :
            /\ x[1] \in 1..Len(Files[f]) /\ x[2] \in 1..Files[f][x[1]]
            /\ Cardinality({y \in 1..Len(found[f]) : found[f][y] = x}) <= Times(f)
Terminates == <>(main = "done")
=============================================================================
