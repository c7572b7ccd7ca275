------------------------------ MODULE HfResume ------------------------------
(* C28: a download that writes the batches of every split with several       *)
(* workers, and that is interrupted at any point, or whose writes fail, and  *)
(* started again. A batch is opened under another name, written (in two      *)
(* halves, as far as a crash can tell), closed and renamed.                  *)
(* Variant: "ok", or                                                         *)
(*   "direct"   batches are written under their final names                  *)
(*   "count"    continues with the number of finished batches                *)
(*   "max"      continues after the last finished batch                      *)
(*   "tmpdone"  unfinished files count as finished ones                      *)
(*   "append"   the unfinished file of an earlier run is continued           *)
(*   "skip"     skips as many examples as there are finished batches         *)
(*   "early"    renames before the file is closed                            *)
(*   "nextsplit" a finished first batch means that the split is finished     *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC, Json

CONSTANTS Sizes,      \* examples of every split
          B,          \* size of the batches
          Workers,
          MaxCrashes, MaxFails,
          Gen,        \* TRUE: record and print the behaviours
          Variant

S == Len(Sizes)
NB(s) == (Sizes[s] + B - 1) \div B
Batches(s) == 0..(NB(s) - 1)
MaxB == Max({NB(s) : s \in 1..S} \cup {1})
Examples(s, from) == LET n == Sizes[s] - from IN [i \in 1..(IF n < 0 THEN 0 ELSE IF n > B THEN B ELSE n) |-> from + i]
BatchOf(s, b) == Examples(s, b * B)

VARIABLES tmp, fin,   \* [split][batch] contents of the files; <<0>> for none
          status,     \* "running", "down" (interrupted), "failed", "done"
          split,      \* the split that is worked on
          start,      \* its first batch in this run
          next,       \* the next batch of it to be given to a worker
          active,     \* [batch -> next step]
          bad,        \* a batch of this split has failed in this run
          crashes, fails,
          hist

vars == <<tmp, fin, status, split, start, next, active, bad, crashes, fails, hist>>
None == <<0>>
Steps == <<"open", "write", "half", "close", "replace">>
Done(s, b) == fin[s][b] # None \/ (Variant = "tmpdone" /\ tmp[s][b] # None)
FirstMissing(s) == CHOOSE b \in 0..(MaxB) : (b = MaxB \/ ~Done(s, b)) /\ \A x \in 0..(b - 1) : Done(s, x)
StartOf(s) ==
    LET have == {b \in 0..(MaxB - 1) : Done(s, b)}
    IN  CASE Variant = "count" -> Cardinality(have)
          [] Variant = "max" -> IF have = {} THEN 0 ELSE Max(have) + 1
          [] Variant = "nextsplit" -> IF 0 \in have THEN MaxB ELSE 0
          [] OTHER -> FirstMissing(s)
\* what the run puts into batch b
Given(s, b) == IF Variant = "skip" THEN Examples(s, start + (b - start) * B) ELSE BatchOf(s, b)

Files(x) == [s \in 1..S |-> [b \in 0..(MaxB - 1) |-> x]]
Init == /\ tmp = Files(None) /\ fin = Files(None)
        /\ status = "running" /\ split = 1 /\ start = 0 /\ next = 0
        /\ active = << >> /\ bad = FALSE
        /\ crashes = 0 /\ fails = 0 /\ hist = <<<<>>>>

Log(b, step, word) == IF Gen THEN hist' = [hist EXCEPT ![Len(hist)] = Append(@, <<split, b, step, word>>)] ELSE UNCHANGED hist
Without(b) == [x \in DOMAIN active \ {b} |-> active[x]]
At(b) == Steps[active[b]]

\* a worker is free: the next batch
Pick == /\ status = "running" /\ Cardinality(DOMAIN active) < Workers
        /\ next <= MaxB - 1 /\ Given(split, next) # <<>>
        /\ active' = active @@ (next :> 1)
        /\ next' = next + 1
        /\ UNCHANGED <<tmp, fin, status, split, start, bad, crashes, fails, hist>>

Put(f, b, x) == [f EXCEPT ![split][b] = x]
Half(q) == SubSeq(q, 1, Len(q) \div 2) \o <<-1>>      \* and a part of an example
Base(q) == IF Variant = "append" /\ q # None THEN q ELSE <<>>

Step(b) ==
    /\ status = "running" /\ b \in DOMAIN active
    /\ LET full == Given(split, b)
           direct == Variant = "direct"
           step == At(b)
           old == IF direct THEN fin[split][b] ELSE tmp[split][b]
           set(x) == IF direct THEN fin' = Put(fin, b, x) /\ UNCHANGED tmp ELSE tmp' = Put(tmp, b, x) /\ UNCHANGED fin
       IN  /\ CASE step = "open" -> set(Base(old))
                [] step = "write" -> set(Base(old) \o Half(full))
                [] step = "half" -> IF Variant = "early" THEN fin' = Put(fin, b, Half(full)) /\ UNCHANGED tmp
                                    ELSE set((IF Variant = "append" THEN SubSeq(old, 1, Len(old) - Len(Half(full))) ELSE <<>>) \o full)
                [] step = "close" -> UNCHANGED <<tmp, fin>>
                [] step = "replace" -> IF direct THEN UNCHANGED <<tmp, fin>>
                                       ELSE fin' = Put(fin, b, IF Variant = "early" THEN full ELSE tmp[split][b]) /\ tmp' = Put(tmp, b, None)
           /\ active' = IF step = "replace" THEN Without(b) ELSE [active EXCEPT ![b] = @ + 1]
           /\ Log(b, step, "go")
    /\ UNCHANGED <<status, split, start, next, bad, crashes, fails>>

\* the operation fails: the batch is given up, the others go on
Fail(b) ==
    /\ status = "running" /\ b \in DOMAIN active /\ fails < MaxFails
    /\ At(b) # "close"
    /\ active' = Without(b) /\ bad' = TRUE /\ fails' = fails + 1
    /\ Log(b, At(b), "raise")
    /\ UNCHANGED <<tmp, fin, status, split, start, next, crashes>>

Crash(b) ==
    /\ status = "running" /\ b \in DOMAIN active /\ crashes < MaxCrashes
    /\ status' = "down" /\ crashes' = crashes + 1
    /\ active' = << >>
    /\ Log(b, At(b), "exit")
    /\ UNCHANGED <<tmp, fin, split, start, next, bad, fails>>

EndSplit ==
    /\ status = "running" /\ DOMAIN active = {} /\ (next > MaxB - 1 \/ Given(split, next) = <<>>)
    /\ IF bad THEN status' = "failed" /\ UNCHANGED <<split, start, next, bad>>
       ELSE IF split = S THEN status' = "done" /\ UNCHANGED <<split, start, next, bad>>
       ELSE /\ split' = split + 1 /\ start' = StartOf(split + 1) /\ next' = StartOf(split + 1)
            /\ bad' = FALSE /\ UNCHANGED status
    /\ UNCHANGED <<tmp, fin, active, crashes, fails, hist>>

Restart ==
    /\ status \in {"down", "failed"}
    /\ status' = "running" /\ split' = 1 /\ start' = StartOf(1) /\ next' = StartOf(1)
    /\ active' = << >> /\ bad' = FALSE
    /\ hist' = IF Gen THEN Append(hist, <<>>) ELSE hist
    /\ UNCHANGED <<tmp, fin, crashes, fails>>

Next == Pick \/ EndSplit \/ Restart \/ (status = "done" /\ UNCHANGED vars)
        \/ \E b \in DOMAIN active : Step(b) \/ Fail(b) \/ Crash(b)
\* a run can always be completed (without further faults)
Calm == Pick \/ EndSplit \/ Restart \/ \E b \in DOMAIN active : Step(b)
Spec == Init /\ [][Next]_vars /\ WF_vars(Calm)
Completes == <>(status = "done")

FinalIsComplete == \A s \in 1..S, b \in 0..(MaxB - 1) : fin[s][b] # None => (b \in Batches(s) /\ fin[s][b] = BatchOf(s, b))
NothingLost == status = "done" => \A s \in 1..S : \A b \in Batches(s) : fin[s][b] = BatchOf(s, b)
Show == (Gen /\ status = "done") => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
