------------------------------- MODULE Dedup --------------------------------
(* C20: worker processes that deduplicate shards concurrently. The table of  *)
(* texts that were seen is shared and protected by one lock.                 *)
(* Variant: "ok", or a design that is broken on purpose:                     *)
(*   "nolock"   the table is read and written without the lock               *)
(*   "private"  every process has a table of its own                         *)
(*   "early"    the lock is released between reading and writing             *)
(*   "leak"     the lock is not released when a document is dropped          *)
(*   "null"     documents without text are given a place in the table        *)
(*   "same"     the outputs of all shards have the same name                 *)
(*   "inplace"  the output of a shard is the shard itself                    *)
EXTENDS DedupOps, TLC, Json

CONSTANTS Shards,     \* sequence of shards
          Block,      \* listed texts
          Keep,       \* keep the first occurrence
          Procs,      \* number of processes
          Variant

N == Len(Shards)
S == 1..N
Texts == UNION {{Shards[s][i].t : i \in 1..Len(Shards[s])} : s \in S}

VARIABLES pos,      \* next document of each shard
          pc,       \* "wait" (for a process), "line", "lock", "get", "set", "done"
          seen,     \* [place][text]
          lock,     \* shard that holds it, or 0
          out,      \* as in DedupOps
          hist      \* passed points

vars == <<pos, pc, seen, lock, out, hist>>

Place(s) == IF Variant = "private" THEN s ELSE 1

Init == /\ pos = [s \in S |-> 1]
        /\ pc = [s \in S |-> "wait"]
        /\ seen = [p \in S |-> [t \in Texts |-> FALSE]]
        /\ lock = 0
        /\ out = [s \in S |-> <<>>]
        /\ hist = <<>>

Running == {s \in S : pc[s] \notin {"wait", "done"}}

\* A free process takes the next shard.
Start(s) == /\ pc[s] = "wait"
            /\ \A r \in S : r < s => pc[r] # "wait"
            /\ Cardinality(Running) < Procs
            /\ pc' = [pc EXCEPT ![s] = "line"]
            \* opening the output empties it
            /\ out' = IF Variant = "same" THEN [r \in S |-> <<>>] ELSE [out EXCEPT ![s] = <<>>]
            /\ pos' = IF Variant = "inplace" THEN [pos EXCEPT ![s] = Len(Shards[s]) + 1] ELSE pos
            /\ UNCHANGED <<seen, lock, hist>>

Emit(s, mark) == /\ out' = [out EXCEPT ![s] = Append(@, <<pos[s], mark>>)]
                 /\ pos' = [pos EXCEPT ![s] = @ + 1]
                 /\ pc' = [pc EXCEPT ![s] = "line"]

Line(s) == /\ pc[s] = "line"
           /\ hist' = Append(hist, s)
           /\ IF pos[s] > Len(Shards[s])
              THEN /\ pc' = [pc EXCEPT ![s] = "done"]
                   /\ UNCHANGED <<pos, seen, lock, out>>
              ELSE LET t == Shards[s][pos[s]].t
                   IN  IF t = 0 /\ Variant # "null"
                       THEN pos' = [pos EXCEPT ![s] = @ + 1] /\ UNCHANGED <<pc, seen, lock, out>>
                       ELSE IF t = 0 \/ t \in Block
                       THEN IF Keep
                            THEN /\ pc' = [pc EXCEPT ![s] = IF Variant \in {"nolock", "private"} THEN "get" ELSE "lock"]
                                 /\ UNCHANGED <<pos, seen, lock, out>>
                            ELSE Emit(s, 1) /\ UNCHANGED <<seen, lock>>
                       ELSE Emit(s, 0) /\ UNCHANGED <<seen, lock>>

Lock(s) == /\ pc[s] = "lock" /\ lock = 0
           /\ lock' = s
           /\ pc' = [pc EXCEPT ![s] = "get"]
           /\ UNCHANGED <<pos, seen, out, hist>>

Get(s) == /\ pc[s] = "get"
          /\ hist' = Append(hist, s)
          /\ UNCHANGED seen
          /\ IF seen[Place(s)][Shards[s][pos[s]].t]
             THEN /\ Emit(s, 1)
                  /\ lock' = IF lock = s /\ Variant # "leak" THEN 0 ELSE lock
             ELSE /\ pc' = [pc EXCEPT ![s] = "set"]
                  /\ lock' = IF Variant = "early" THEN 0 ELSE lock
                  /\ UNCHANGED <<pos, out>>

Set(s) == /\ pc[s] = "set"
          /\ hist' = Append(hist, s)
          /\ seen' = [seen EXCEPT ![Place(s)][Shards[s][pos[s]].t] = TRUE]
          /\ Emit(s, 0)
          /\ lock' = IF lock = s THEN 0 ELSE lock

Finished == \A s \in S : pc[s] = "done"
Next == (\E s \in S : Start(s) \/ Line(s) \/ Lock(s) \/ Get(s) \/ Set(s)) \/ (Finished /\ UNCHANGED vars)

View == <<pos, pc, seen, lock, out>>

Kept == UNION {{<<s, out[s][i][1]>> : i \in {j \in 1..Len(out[s]) : out[s][j][2] = 0}} : s \in S}

ExactlyOne == Finished => KeptAllowed(Shards, Block, Keep, Kept)
Complete == Finished => \A s \in S : {out[s][i][1] : i \in 1..Len(out[s])} = TextIdx(Shards[s]) /\ Increasing([i \in 1..Len(out[s]) |-> out[s][i][1]])
\* what has been decided so far is never wrong either
SoFar == \A t \in Block : Keep => Cardinality({p \in Kept : TextOf(Shards, p) = t}) <= 1

\* behaviours for the conformance check
Show == Finished => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
