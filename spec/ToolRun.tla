------------------------------ MODULE ToolRun ------------------------------
(* C34: a run of the Python tools. The first step has one task per file: it  *)
(* passes on what it read of its file. The lines of all tasks are collected  *)
(* (sort, uniq, cut: a pipe, of which every program has a status) into a     *)
(* list, from which the second step makes the results, one per file. The     *)
(* master looks at the status of each step before it goes on.                *)
(* Variant: "ok", or                                                         *)
(*   "lastonly"   the status of a pipe is that of its last program           *)
(*   "ignore"     the master does not look at the status of a step           *)
(*   "inner"      the status of a task is that of the last of its programs   *)
(*   "catch"      a task that fails while reading ends as if it were done    *)
(*   "skipline"   a task leaves out lines that it cannot read                *)
(*   "anyone"     a step fails only if all of its tasks do                   *)
EXTENDS ToolRunOps, FiniteSets, TLC

CONSTANTS Files,        \* number of files
          MaxLen,       \* lines of a file
          Variant

\* a file: its number of lines and the line that cannot be read (0: none; its length + 1: its end is missing)
FileSet == {[len |-> n, bad |-> b] : n \in 0..MaxLen, b \in 0..(MaxLen + 1)}
Good(f) == f.bad = 0 \/ f.bad > f.len + 1

VARIABLES file,     \* [1..Files] their contents
          tools,    \* programs of the pipe: [1..2] TRUE if they work
          room,     \* there is room for the results of the second step
          pos,      \* [file] lines read by the first step
          st,       \* [file] status of its task: "run", "ok", "fail"
          list,     \* lines collected: set of <<file, line>>, or "none"
          out,      \* [file] set of lines of which there are results
          st2,      \* [file] status of the task of the second step
          rc        \* status of the run: "run", "ok", "fail"

vars == <<file, tools, room, pos, st, list, out, st2, rc>>
F == 1..Files

Init == /\ file \in [F -> FileSet]
        /\ tools \in [1..2 -> BOOLEAN]
        /\ room \in BOOLEAN
        /\ pos = [f \in F |-> 0]
        /\ st = [f \in F |-> "run"]
        /\ list = {} /\ out = [f \in F |-> {}]
        /\ st2 = [f \in F |-> "wait"]
        /\ rc = "run"

\* a task of the first step: the next line, an unreadable one, or the end
Read(f) ==
    /\ st[f] = "run" /\ rc = "run"
    /\ LET n == pos[f] + 1
           x == file[f]
           failed == IF Variant \in {"catch", "inner"} THEN "ok" ELSE "fail"
       IN  CASE n = x.bad /\ n <= x.len /\ Variant = "skipline" -> pos' = [pos EXCEPT ![f] = n] /\ UNCHANGED st
             [] n = x.bad /\ n <= x.len + 1 /\ ~(n <= x.len /\ Variant = "skipline") -> st' = [st EXCEPT ![f] = failed] /\ UNCHANGED pos
             [] n > x.len /\ n # x.bad -> st' = [st EXCEPT ![f] = "ok"] /\ UNCHANGED pos
             [] OTHER -> pos' = [pos EXCEPT ![f] = n] /\ UNCHANGED st
    /\ UNCHANGED <<file, tools, room, list, out, st2, rc>>

Read1 == {<<f, i>> \in F \X (1..MaxLen) : i <= pos[f] /\ i # file[f].bad}

\* all tasks have ended: the pipe is at its end
Collect ==
    /\ rc = "run" /\ \A f \in F : st[f] # "run" /\ st2[f] = "wait"
    /\ LET mapped == IF Variant = "anyone" THEN (\E f \in F : st[f] = "ok") ELSE \A f \in F : st[f] = "ok"
           pipe == IF Variant = "lastonly" THEN tools[2] ELSE mapped /\ tools[1] /\ tools[2]
       IN  /\ list' = IF tools[1] /\ tools[2] THEN Read1 ELSE {}
           /\ IF pipe \/ Variant = "ignore"
              THEN st2' = [f \in F |-> "run"] /\ UNCHANGED rc
              ELSE rc' = "fail" /\ UNCHANGED st2
    /\ UNCHANGED <<file, tools, room, pos, st, out>>

\* a task of the second step
Use(f) ==
    /\ st2[f] = "run" /\ rc = "run"
    /\ IF room
       THEN out' = [out EXCEPT ![f] = {l \in list : l[1] = f}] /\ st2' = [st2 EXCEPT ![f] = "ok"]
       ELSE st2' = [st2 EXCEPT ![f] = "fail"] /\ UNCHANGED out
    /\ UNCHANGED <<file, tools, room, pos, st, list, rc>>

End ==
    /\ rc = "run" /\ \A f \in F : st2[f] \in {"ok", "fail"}
    /\ rc' = IF Variant = "ignore" \/ (\A f \in F : st2[f] = "ok") THEN "ok" ELSE "fail"
    /\ UNCHANGED <<file, tools, room, pos, st, list, out, st2>>

Next == (\E f \in F : Read(f) \/ Use(f)) \/ Collect \/ End \/ (rc # "run" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Steps == << [f \in F |-> IF Good(file[f]) THEN 1 ELSE 0],
            [i \in 1..2 |-> IF tools[i] THEN 1 ELSE 0],
            [f \in F |-> IF room THEN 1 ELSE 0] >>

\* the status says whether everything could be done
Truthful == rc # "run" => ToolRunAllowed([steps |-> Steps, rc |-> IF rc = "ok" THEN 0 ELSE 1])

\* and then it was
Complete == rc = "ok" => \A f \in F : out[f] = {<<f, i>> : i \in 1..file[f].len}

Ends == <>(rc # "run")
=============================================================================
