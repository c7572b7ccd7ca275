------------------------------- MODULE Faults -------------------------------
(* C12, C13: when a run has to fail, and when it must not. Files are         *)
(*  [open |-> "ok" | "missing" | "bad" | "doubt",   (cannot be opened at all) *)
(*   lines |-> number of lines, bad |-> <<damaged lines>>,                    *)
(*   doubt |-> <<lines that may or may not be accepted>>,                     *)
(*   tail |-> "ok" | "bad" | "doubt"]   (damage of the compressed data, which *)
(* shows at the latest when the end of the file is read)                      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt

FTake(s, l) == IF l < 0 \/ l >= Len(s) THEN s ELSE SubSeq(s, 1, l)
Within(i, limit) == limit < 0 \/ i <= limit
MustFailFile(f, limit) ==
    \/ f.open = "missing"
    \/ f.open = "bad" /\ limit # 0
    \/ \E i \in 1..Len(f.bad) : Within(f.bad[i], limit)
    \/ f.tail = "bad" /\ (limit < 0 \/ limit > f.lines)
MayFailFile(f, limit) ==
    \/ MustFailFile(f, limit)
    \/ f.open # "ok"
    \/ f.tail # "ok"
    \/ \E i \in 1..Len(f.doubt) : Within(f.doubt[i], limit)

\* status: exit status; records: number of bytes of result on stdout and in the output file
OutcomeAllowed(files, listing, flimit, limit, status, records) ==
    LET sel == FTake(listing, flimit)
    IN  IF status = 0
        THEN \A i \in 1..Len(sel) : ~MustFailFile(files[sel[i]], limit)
        ELSE /\ \E i \in 1..Len(sel) : MayFailFile(files[sel[i]], limit)
             /\ records = 0

-----------------------------------------------------------------------------
(* Attempts: plan[f] says what happens to the attempts at file f (over all    *)
(* passes): 0 nothing, 1 the attempt fails; the last entry repeats.           *)
FPlanOf(plan, f, a) == IF Len(plan[f]) = 0 THEN 0
                       ELSE IF a <= Len(plan[f]) THEN plan[f][a] ELSE plan[f][Len(plan[f])]
RECURSIVE FPass(_, _, _, _)
FPass(plan, f, a, left) ==
    IF FPlanOf(plan, f, a) = 0 THEN <<FALSE, a + 1>>
    ELSE IF left = 1 THEN <<TRUE, a + 1>>
    ELSE FPass(plan, f, a + 1, left - 1)
RECURSIVE FHopeless(_, _, _, _, _)
FHopeless(plan, f, a, passes, retries) ==
    passes > 0 /\ LET r == FPass(plan, f, a, retries + 1)
                  IN  r[1] \/ FHopeless(plan, f, r[2], passes - 1, retries)

RetriesAllowed(plan, passes, retries, status, records) ==
    LET hopeless == \E f \in 1..Len(plan) : FHopeless(plan, f, 1, passes, retries)
    IN  /\ (status # 0) = hopeless
        /\ hopeless => records = 0
-----------------------------------------------------------------------------
(* C32: the messages of a run. named: the files that the final error names;   *)
(* line: the line number in it (-1: none); lines: the numbers of processed    *)
(* lines that are reported; recovered: the reported number of failed attempts *)
(* that were repeated. files also have json: the damaged lines that are UTF-8.*)
FMin(s) == CHOOSE x \in s : \A y \in s : x <= y
RECURSIVE FSum(_, _)
FSum(op, n) == IF n = 0 THEN 0 ELSE op[n] + FSum(op, n - 1)
\* the number in the final error is that of the first line that is not JSON
LineAllowed(f, limit, line) ==
    LET bad == {f.bad[i] : i \in 1..Len(f.bad)}
        json == {f.json[i] : i \in 1..Len(f.json)}
        doubt == {f.doubt[i] : i \in 1..Len(f.doubt)}
        first == FMin(bad \cup doubt)
        sure == f.open = "ok" /\ f.tail = "ok" /\ doubt = {} /\ bad # {}
    IN  \* (once another file has failed the lines are still read, but not looked at)
        IF sure THEN line = (IF first \in json THEN first ELSE -1) \/ (line = -1 /\ bad # json)
        ELSE f.tail # "ok" \/ line = -1 \/ line \in doubt \/ (json # {} /\ line = FMin(json))
SaysAllowed(c) ==
    LET sel == FTake(c.listing, c.flimit)
        Lasting(f) == IF c.plan = <<>> THEN MayFailFile(c.files[f], c.limit) ELSE FHopeless(c.plan, f, 1, 1, c.retries)
        Lines(f) == IF c.limit >= 0 /\ c.limit < c.files[f].lines THEN c.limit ELSE c.files[f].lines
        Failing(f) == IF c.plan = <<>> THEN 0 ELSE FPass(c.plan, f, 1, c.retries + 1)[2] - 2
        twice == Cardinality({sel[i] : i \in 1..Len(sel)}) < Len(sel)
    IN  IF c.status = 0
        THEN /\ c.lines # <<>>
             /\ LET n == FSum([i \in 1..Len(sel) |-> Lines(sel[i])], Len(sel))
                IN  \A i \in 1..Len(c.lines) : c.lines[i] = n
             /\ twice \/ c.recovered = FSum([i \in 1..Len(sel) |-> Failing(sel[i])], Len(sel))
        ELSE /\ c.named # <<>>
             /\ \A i \in 1..Len(c.named) : /\ \E j \in 1..Len(sel) : sel[j] = c.named[i]
                                           /\ Lasting(c.named[i])
             /\ Len(c.named) = 1 => LineAllowed(c.files[c.named[1]], c.limit, c.line)
=============================================================================
