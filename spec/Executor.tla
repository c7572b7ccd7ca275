------------------------------ MODULE Executor ------------------------------
(* C12, C13, C14, C16, C32: the data executor (src/cmd/util.rs) under failures.   *)
(* The main thread submits one job per selected file (or gives up at the     *)
(* first one that does not exist), waits, and reports. Jobs run on a pool;   *)
(* an attempt at a file reads its lines, may fail at any of them (error or   *)
(* panic), and is repeated MaxRetries times. A command may make two passes   *)
(* (botk). Each file has a number of lines and a plan of what goes wrong:    *)
(*   plan[f] is a sequence, one entry per attempt (over all passes):         *)
(*   0 nothing, i the attempt fails at line i, -i it panics at line i;       *)
(*   attempts beyond the end of the plan behave as its last entry.           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

CONSTANTS
    Lines,      \* file -> number of lines
    Plans,      \* file -> set of plans
    Missing,    \* set of sets of files that may be missing
    MaxRetries, W, Passes,
    Variant

NF == Len(Lines)
Jobs == 1..NF
Workers == 1..W

VARIABLES
    plan, gone,              \* what goes wrong in this behaviour
    main, next, pass, queue, w,
    attempts,                \* file -> attempts begun so far
    committed,               \* file -> times its lines have been counted (this pass)
    early,
    errRec,                  \* the file that the recorded error names (0: none)
    holder,                  \* (variant "trylock") the worker that holds the lock of the record (0: none)
    errors,                  \* failed attempts of this pass
    total,                   \* lines reported as processed by this pass
    panics, finished, status, printed
vars == <<plan, gone, main, next, pass, queue, w, attempts, committed, early, errRec, holder, errors, total, panics, finished, status, printed>>
says == <<errRec, holder, errors, total>>

Idle == [job |-> 0, pc |-> "idle", pos |-> 0, tries |-> 0, seen |-> 0]
Init ==
    /\ plan \in [Jobs -> UNION {Plans[f] : f \in Jobs}] /\ \A f \in Jobs : plan[f] \in Plans[f]
    /\ gone \in Missing
    /\ main = "submit" /\ next = 1 /\ pass = 1 /\ queue = <<>>
    /\ w = [i \in Workers |-> Idle]
    /\ attempts = [f \in Jobs |-> 0]
    /\ committed = [f \in Jobs |-> 0]
    /\ early = FALSE /\ errRec = 0 /\ holder = 0 /\ errors = 0 /\ total = 0 /\ panics = 0 /\ finished = {} /\ status = -1 /\ printed = FALSE

\* what goes wrong in the attempt number a at file f
PlanOf(p, f, a) == IF Len(p[f]) = 0 THEN 0 ELSE IF a <= Len(p[f]) THEN p[f][a] ELSE p[f][Len(p[f])]

Submit ==
    /\ main = "submit" /\ next <= NF
    /\ IF next \in gone
       THEN IF Variant = "skipmissing"
            THEN /\ finished' = finished \cup {next} /\ next' = next + 1
                 /\ UNCHANGED <<queue, early, main, status>>
            ELSE /\ early' = TRUE /\ main' = "done" /\ status' = 1
                 /\ UNCHANGED <<next, queue, finished>>
       ELSE /\ queue' = Append(queue, next) /\ next' = next + 1
            /\ UNCHANGED <<early, main, status, finished>>
    /\ UNCHANGED <<plan, gone, pass, w, attempts, committed, errRec, holder, errors, total, panics, printed>>

Submitted ==
    /\ main = "submit" /\ next > NF
    /\ main' = "join"
    /\ UNCHANGED <<plan, gone, next, pass, queue, w, attempts, committed, early, errRec, holder, errors, total, panics, finished, status, printed>>

Failed == early \/ (panics > 0 /\ Variant # "ignorepanic")
Join ==
    /\ main = "join" /\ finished = Jobs
    /\ IF Failed /\ ~(Variant = "ignoreerror")
       THEN main' = "done" /\ status' = 1 /\ UNCHANGED <<says, next, pass, attempts, committed, finished, printed, early>>
       ELSE IF pass < Passes
       THEN /\ pass' = pass + 1 /\ main' = "submit" /\ next' = 1 /\ finished' = {}
            /\ committed' = [f \in Jobs |-> 0]
            /\ early' = (IF Variant = "stickyearly" THEN early ELSE FALSE)
            /\ errRec' = 0 /\ errors' = 0 /\ total' = 0 /\ UNCHANGED holder
            /\ UNCHANGED <<attempts, status, printed>>
       ELSE main' = "done" /\ status' = 0 /\ printed' = TRUE
            /\ UNCHANGED <<says, next, pass, attempts, committed, finished, early>>
    /\ UNCHANGED <<plan, gone, queue, w, panics>>

Take(i) ==
    /\ main # "done" /\ w[i].pc = "idle" /\ queue # <<>>
    /\ w' = [w EXCEPT ![i] = [Idle EXCEPT !.job = Head(queue), !.pc = "read", !.pos = 1]]
    /\ attempts' = [attempts EXCEPT ![Head(queue)] = @ + 1]
    /\ queue' = Tail(queue)
    /\ UNCHANGED <<plan, gone, main, next, pass, committed, early, errRec, holder, errors, total, panics, finished, status, printed>>

Trouble(i) == PlanOf(plan, w[i].job, attempts[w[i].job])
\* a line is read, and processed unless somebody has failed
Line(i) ==
    /\ main # "done" /\ w[i].pc = "read" /\ w[i].pos <= Lines[w[i].job]
    /\ ~(Trouble(i) = w[i].pos) /\ ~(Trouble(i) = -w[i].pos /\ ~early)
    /\ w' = [w EXCEPT ![i].pos = @ + 1, ![i].seen = IF early THEN @ ELSE @ + 1]
    /\ UNCHANGED <<plan, gone, main, next, pass, queue, attempts, committed, early, errRec, holder, errors, total, panics, finished, status, printed>>

Error(i) ==                       \* the attempt fails
    /\ main # "done" /\ holder # i /\ w[i].pc = "read" /\ Trouble(i) = w[i].pos /\ w[i].pos <= Lines[w[i].job]
    /\ errors' = errors + 1
    \* The record is replaced under its lock, and an error that can be recovered from does not replace the one
    \* that makes the run fail.
    /\ LET fatal == w[i].tries >= MaxRetries
           skip == Variant = "trylock" /\ holder # 0
       IN  /\ errRec' = IF skip THEN errRec
                        ELSE IF fatal \/ ~early \/ Variant = "lasterror" THEN w[i].job ELSE errRec
           /\ holder' = IF Variant = "trylock" /\ ~skip /\ ~fatal THEN i ELSE holder
    /\ total' = total + (IF Variant = "allattempts" THEN w[i].seen ELSE 0)
    /\ IF w[i].tries >= MaxRetries
       THEN /\ early' = (Variant # "noearly") /\ finished' = finished \cup {w[i].job} /\ w' = [w EXCEPT ![i] = Idle]
            /\ UNCHANGED attempts
       ELSE /\ w' = [w EXCEPT ![i].tries = @ + 1, ![i].pos = 1, ![i].seen = IF Variant = "keep" THEN @ ELSE 0]
            /\ attempts' = [attempts EXCEPT ![w[i].job] = @ + 1]
            /\ UNCHANGED <<early, finished>>
    /\ UNCHANGED <<plan, gone, main, next, pass, queue, committed, panics, status, printed>>

\* (variant "trylock") the lock is given back a little later
Release(i) ==
    /\ holder = i /\ holder' = 0
    /\ UNCHANGED <<plan, gone, main, next, pass, queue, w, attempts, committed, early, errRec, errors, total, panics, finished, status, printed>>

Panic(i) ==
    /\ main # "done" /\ w[i].pc = "read" /\ Trouble(i) = -w[i].pos /\ ~early /\ w[i].pos <= Lines[w[i].job]
    /\ panics' = panics + 1
    /\ finished' = finished \cup {w[i].job}
    /\ w' = [w EXCEPT ![i] = Idle]
    /\ UNCHANGED <<plan, gone, main, next, pass, queue, attempts, committed, early, errRec, holder, errors, total, status, printed>>

Finish(i) ==                      \* end of the file: the callback, then the job is over
    /\ main # "done" /\ w[i].pc = "read" /\ w[i].pos > Lines[w[i].job]
    /\ committed' = [committed EXCEPT ![w[i].job] = @ + w[i].seen]
    /\ finished' = finished \cup {w[i].job}
    /\ w' = [w EXCEPT ![i] = Idle]
    /\ total' = total + w[i].seen
    /\ UNCHANGED <<plan, gone, main, next, pass, queue, attempts, early, errRec, holder, errors, panics, status, printed>>

Done == main = "done" /\ UNCHANGED vars
Main == Submit \/ Submitted \/ Join
Step(i) == Take(i) \/ Line(i) \/ Error(i) \/ Panic(i) \/ Finish(i) \/ Release(i)
Next == Main \/ (\E i \in Workers : Step(i)) \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A i \in Workers : WF_vars(Step(i))

-----------------------------------------------------------------------------
\* Does the command have to fail? A file fails for good if some pass runs out of attempts (or panics).
RECURSIVE PassFails(_, _, _, _)
PassFails(p, f, a, left) ==      \* attempts a, a+1, ... of this pass; left: attempts left
    LET t == PlanOf(p, f, a)
    IN  IF t = 0 \/ t > Lines[f] \/ -t > Lines[f] THEN <<FALSE, a + 1>>
        ELSE IF t < 0 \/ left = 1 THEN <<TRUE, a + 1>>
        ELSE PassFails(p, f, a + 1, left - 1)
RECURSIVE Hopeless(_, _, _, _)
Hopeless(p, f, a, passes) ==
    passes > 0 /\ LET r == PassFails(p, f, a, MaxRetries + 1) IN r[1] \/ Hopeless(p, f, r[2], passes - 1)

MustFail == gone # {} \/ \E f \in Jobs : Hopeless(plan, f, 1, Passes)

NoResultOnFailure == MustFail => (status # 0 /\ ~printed)
NoFalseFailure == ~MustFail => status # 1
CompleteOnSuccess == status = 0 => \A f \in Jobs : committed[f] = Lines[f]
\* What the run says about itself: a failure names a file that failed for good (in this pass), a success the number
\* of lines, and of failed attempts.
FailsForGood(f) ==
    LET RECURSIVE From(_, _)
        From(a, passes) == passes > 0 /\ LET r == PassFails(plan, f, a, MaxRetries + 1) IN r[1] \/ From(r[2], passes - 1)
    IN  From(1, Passes)
BlamesTheRight == (status = 1 /\ gone = {} /\ panics = 0) => (errRec # 0 /\ FailsForGood(errRec))
RECURSIVE SumTo(_, _)
SumTo(op, n) == IF n = 0 THEN 0 ELSE op[n] + SumTo(op, n - 1)
LinesTrue == status = 0 => total = SumTo(Lines, NF)
ErrorsTrue == (status = 0 /\ Passes = 1) => errors + NF = SumTo(attempts, NF)
AttemptsBounded == \A f \in Jobs : attempts[f] <= Passes * (MaxRetries + 1)
Terminates == <>(main = "done")
=============================================================================
