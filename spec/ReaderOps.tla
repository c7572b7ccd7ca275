----------------------------- MODULE ReaderOps ------------------------------
(* What the lines of a text are. A text is a sequence of runs <<char, n>>    *)
(* without empty runs and without equal neighbours.                          *)
EXTENDS Integers, Sequences, SequencesExt

NL == 10

\* acc = <<lines so far, current line>>
AddRun(acc, r) ==
    IF r[1] # NL THEN <<acc[1], Append(acc[2], r)>>
    ELSE <<acc[1] \o <<Append(acc[2], <<NL, 1>>)>> \o [i \in 1..(r[2] - 1) |-> <<<<NL, 1>>>>], <<>>>>

LinesOfText(text) ==
    LET a == FoldLeft(AddRun, <<<<>>, <<>>>>, text)
    IN  IF a[2] = <<>> THEN a[1] ELSE Append(a[1], a[2])

\* damage: "none"; "cut" (data is missing at the end, or cannot be read; what comes before it is intact);
\* "corrupt" (anything may have been changed before it is noticed); "utf8" (badline is the first line that is not
\* UTF-8; the lines before it are intact); "doubt" (nothing is said)
ReaderAllowed(c) ==
    LET L == LinesOfText(c.text)
    IN  CASE c.damage = "none" -> c.error = 0 /\ c.lines = L /\ \A i \in 1..Len(c.extra) : c.extra[i] = "end"
          [] c.damage = "cut" -> c.error = 1 /\ IsPrefix(c.lines, L)
          [] c.damage = "utf8" -> c.error = 1 /\ c.lines = SubSeq(L, 1, c.badline - 1)
          [] c.damage = "corrupt" -> c.error = 1
          [] c.damage = "doubt" -> TRUE
=============================================================================
