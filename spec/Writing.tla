------------------------------ MODULE Writing -------------------------------
(* C15: how the records of a run get into its output (a file or the standard *)
(* output). The system accepts the bytes of a write in pieces, interrupts    *)
(* it, or refuses it for good when there is no room left. What the variants  *)
(* do instead of what they should: "once" takes an accepted piece for the    *)
(* whole, "lazy" collects everything and does not look at whether it could   *)
(* be written in the end, "interrupt" gives up on an interruption.           *)
EXTENDS WritingOps, TLC

CONSTANTS Records, Room, Variant

Total == FoldLeft(LAMBDA a, b : a + b, 0, Records)

VARIABLES rec,       \* the record that is being written
          left,      \* what is left of it
          file,      \* bytes accepted (each is the index in the output that it should have)
          next,      \* index of the next byte to hand over
          buf,       \* bytes that are held back
          status, interrupted
vars == <<rec, left, file, next, buf, status, interrupted>>

Init == rec = 0 /\ left = 0 /\ file = <<>> /\ next = 1 /\ buf = 0 /\ status = "run" /\ interrupted = FALSE

Take == /\ status = "run" /\ left = 0 /\ rec < Len(Records)
        /\ rec' = rec + 1 /\ left' = Records[rec + 1]
        /\ UNCHANGED <<file, next, buf, status, interrupted>>

Bytes(from, n) == [i \in 1..n |-> from + i - 1]

Hold == /\ Variant = "lazy" /\ status = "run" /\ left > 0
        /\ buf' = buf + left /\ left' = 0
        /\ UNCHANGED <<rec, file, next, status, interrupted>>

Accept == /\ Variant # "lazy" /\ status = "run" /\ left > 0 /\ Len(file) < Room
          /\ \E n \in 1..(IF left < Room - Len(file) THEN left ELSE Room - Len(file)) :
                /\ file' = file \o Bytes(next, n)
                /\ IF Variant = "once" THEN next' = next + left /\ left' = 0
                   ELSE next' = next + n /\ left' = left - n
          /\ interrupted' = FALSE
          /\ UNCHANGED <<rec, buf, status>>

Interrupt == /\ Variant # "lazy" /\ status = "run" /\ left > 0 /\ ~interrupted
             /\ interrupted' = TRUE
             /\ status' = IF Variant = "interrupt" THEN "fail" ELSE status
             /\ UNCHANGED <<rec, left, file, next, buf>>

Refuse == /\ Variant # "lazy" /\ status = "run" /\ left > 0 /\ Len(file) = Room
          /\ status' = "fail"
          /\ UNCHANGED <<rec, left, file, next, buf, interrupted>>

Finish == /\ status = "run" /\ left = 0 /\ rec = Len(Records)
          /\ status' = "ok"
          /\ file' = file \o Bytes(next, IF buf < Room - Len(file) THEN buf ELSE Room - Len(file))
          /\ UNCHANGED <<rec, left, next, buf, interrupted>>

Next == Take \/ Hold \/ Accept \/ Interrupt \/ Refuse \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Take \/ Hold \/ Accept \/ Refuse \/ Finish)

Observed == [status |-> IF status = "ok" THEN 0 ELSE 1, size |-> Total, room |-> Room, kept |-> Len(file),
             same |-> IF \A i \in 1..Len(file) : file[i] = i THEN 1 ELSE 0]
Complete == status # "run" => WrittenAllowed(Observed)
Ends == <>(status # "run")
=============================================================================
