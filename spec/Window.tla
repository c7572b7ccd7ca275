------------------------------- MODULE Window -------------------------------
(* C19: the two ways in which the code slides a window over the tokens of a  *)
(* series of documents: a deque (topk, botk, unique) and the iterator of the *)
(* library, which keeps the last n - 1 tokens.                               *)
EXTENDS Words, TLC

CONSTANTS MaxLen, NumDocs, MaxN, Variant

Texts == UNION {[1..l -> {1, 2}] : l \in 0..MaxLen}
VARIABLES docs, n, d, pos, deque, out, mem, out2
vars == <<docs, n, d, pos, deque, out, mem, out2>>

Init == /\ docs \in [1..NumDocs -> Texts] /\ n \in 1..MaxN
        /\ d = 1 /\ pos = 0 /\ deque = <<>> /\ out = [i \in 1..NumDocs |-> <<>>] /\ mem = <<>> /\ out2 = out

Token == /\ d <= NumDocs /\ pos < Len(docs[d])
         /\ pos' = pos + 1
         /\ LET t == docs[d][pos + 1]
                popped == IF Len(deque) = n THEN Tail(deque) ELSE deque
                dq == Append(popped, t)
            IN  /\ deque' = dq
                /\ out' = IF Len(dq) = n \/ (Variant = "short" /\ Len(dq) = n - 1) THEN [out EXCEPT ![d] = Append(@, dq)] ELSE out
                /\ IF n = 1 THEN mem' = mem /\ out2' = [out2 EXCEPT ![d] = Append(@, <<t>>)]
                   ELSE IF Len(mem) < n - 1 THEN mem' = Append(mem, t) /\ out2' = out2
                   ELSE /\ out2' = [out2 EXCEPT ![d] = Append(@, Append(mem, t))]
                        /\ mem' = IF Variant = "nopop" THEN Append(mem, t) ELSE Append(Tail(mem), t)
         /\ UNCHANGED <<docs, n, d>>
NextDoc == /\ d <= NumDocs /\ pos = Len(docs[d])
           /\ d' = d + 1 /\ pos' = 0 /\ mem' = <<>>
           /\ deque' = IF Variant = "noreset" THEN deque ELSE <<>>
           /\ UNCHANGED <<docs, n, out, out2>>
Next == Token \/ NextDoc
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Exact == d > NumDocs => \A i \in 1..NumDocs : out[i] = WindowsOf(docs[i], n) /\ out2[i] = out[i]
Ends == <>(d > NumDocs)
=============================================================================
