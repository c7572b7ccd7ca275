----------------------------- MODULE WritingOps -----------------------------
(* C15: a run whose output has room for `room` bytes while its results take  *)
(* `size` bytes: it succeeds if and only if they fit, and then all of them   *)
(* are there. same = 1: what is there is the beginning of the results.       *)
EXTENDS Integers, Sequences, SequencesExt

WrittenAllowed(c) ==
    /\ (c.status = 0) <=> (c.size <= c.room)
    /\ c.status = 0 => c.kept = c.size /\ c.same = 1
=============================================================================
