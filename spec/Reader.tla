------------------------------- MODULE Reader -------------------------------
(* C17: the reader as a state machine: a stream that delivers its characters *)
(* in pieces (and may end in an error instead of an end), one line buffer    *)
(* that is shared with the caller by reference counting, and a caller that   *)
(* keeps some of the lines it gets, dropping them whenever it likes.         *)
EXTENDS ReaderOps, FiniteSets, TLC

CONSTANTS MaxLen, Variant

Chars == {NL, 97}
Streams == UNION {[1..n -> Chars] : n \in 0..MaxLen}

VARIABLES data,      \* the characters of the stream
          cuts,      \* positions at which a member of the stream ends
          broken,    \* the stream ends in an error after its last character
          pos, heap, \* buffer id -> characters
          cur,       \* the reader's buffer
          given,     \* ids of the buffers handed out, by line
          kept,      \* lines the caller still holds
          copy,      \* what each line was when it was handed out
          state      \* "idle", "reading", "end", "error"
vars == <<data, cuts, broken, pos, heap, cur, given, kept, copy, state>>

Init == /\ data \in Streams
        /\ cuts \in {S \in SUBSET (1..Len(data)) : Cardinality(S) <= 1}
        /\ broken \in BOOLEAN
        /\ pos = 0 /\ heap = <<<<>>>> /\ cur = 1 /\ given = <<>> /\ kept = {} /\ copy = <<>> /\ state = "idle"

Shared == \E i \in kept : given[i] = cur

Call == /\ state = "idle"
        /\ IF Shared /\ Variant # "alwaysreuse"
           THEN heap' = Append(heap, <<>>) /\ cur' = Len(heap) + 1
           ELSE heap' = (IF Variant = "noclear" THEN heap ELSE [heap EXCEPT ![cur] = <<>>]) /\ cur' = cur
        /\ state' = "reading" /\ UNCHANGED <<data, cuts, broken, pos, given, kept, copy>>

Give == /\ given' = Append(given, cur) /\ copy' = Append(copy, heap'[cur]) /\ state' = "idle"

\* one character, or the end of the stream
Step == /\ state = "reading"
        /\ IF pos = Len(data) \/ (Variant = "onemember" /\ pos \in cuts)
           THEN /\ UNCHANGED <<pos, heap>>
                /\ IF broken /\ Variant # "eofok" THEN state' = "error" /\ UNCHANGED <<given, copy>>
                   ELSE IF heap[cur] = <<>> \/ (Variant = "losetail") THEN state' = "end" /\ UNCHANGED <<given, copy>>
                   ELSE Give
           ELSE /\ pos' = pos + 1
                /\ heap' = [heap EXCEPT ![cur] = Append(@, data[pos + 1])]
                /\ IF data[pos + 1] = NL THEN Give ELSE UNCHANGED <<given, copy, state>>
        /\ UNCHANGED <<data, cuts, broken, cur, kept>>

\* the caller keeps the line it was given last, or drops one
Keep == /\ state = "idle" /\ given # <<>> /\ Len(given) \notin kept
        /\ kept' = kept \cup {Len(given)} /\ UNCHANGED <<data, cuts, broken, pos, heap, cur, given, copy, state>>
Drop == /\ state = "idle" /\ \E i \in kept : kept' = kept \ {i}
        /\ UNCHANGED <<data, cuts, broken, pos, heap, cur, given, copy, state>>

Next == Call \/ Step \/ Keep \/ Drop
Spec == Init /\ [][Next]_vars /\ WF_vars(Call \/ Step)

Runs(s) == FoldLeft(LAMBDA a, x : IF a # <<>> /\ a[Len(a)][1] = x THEN [a EXCEPT ![Len(a)] = <<x, @[2] + 1>>]
                                  ELSE Append(a, <<x, 1>>), <<>>, s)
Expected == LinesOfText(Runs(data))

KeptUnchanged == \A i \in kept : heap[given[i]] = copy[i]
LinesRight == /\ IsPrefix([i \in 1..Len(copy) |-> Runs(copy[i])], Expected)
              /\ state = "end" => Len(copy) = Len(Expected) /\ ~broken
ErrorReported == state = "error" => broken
Ends == <>(state \in {"end", "error"})
=============================================================================
