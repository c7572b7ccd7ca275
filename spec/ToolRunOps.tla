---------------------------- MODULE ToolRunOps -----------------------------
(* C34: which status a run made of several steps may end with. A step        *)
(* consists of tasks (one for every file, or one alone); a task either can   *)
(* do all of its work (1) or not (0): its file cannot be read to the end, a  *)
(* line is not a document, its program is missing, its output has no room.   *)
EXTENDS Integers, Sequences

Whole(step) == \A i \in 1..Len(step) : step[i] = 1
CanSucceed(steps) == \A s \in 1..Len(steps) : Whole(steps[s])

\* c: steps (sequence of sequences of 0 or 1), rc (0 or 1: the run failed)
ToolRunAllowed(c) == (c.rc = 0) <=> CanSucceed(c.steps)
=============================================================================
