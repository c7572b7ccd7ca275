------------------------------ MODULE Prepare -------------------------------
(* C29: preparing a data set item by item (a parquet file to be converted, a *)
(* file of records to be converted and uploaded, adjacent files to be        *)
(* combined), by several workers, which are interrupted at any point and     *)
(* started again. An item that has a result is skipped.                      *)
(* Variant: "ok", or                                                         *)
(*   "direct"    results are written under their final names                 *)
(*   "always"    like "direct", but nothing is ever skipped                  *)
(*   "missing"   only items with an empty result are worked on               *)
(*   "tmpdone"   an unfinished result counts as a finished one               *)
(*   "append"    the unfinished result of an earlier run is continued        *)
(*   "early"     renamed before everything has been written                  *)
(*   "number"    as many items as have results are skipped                   *)
(*   "shared"    all workers use one name for their unfinished results       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS N,          \* items
          Workers, MaxCrashes, Variant

Items == 1..N
Parts == 2            \* a result consists of two parts: <<item, 1>>, <<item, 2>>
All(i) == [p \in 1..Parts |-> <<i, p>>]

VARIABLES final,      \* [item -> sequence of parts, <<-1>>: no such file]
          tmp,        \* [name -> the same]; names are items, or 0 if shared
          at,         \* [worker -> item, or 0]
          step,       \* [worker -> next step]
          next,       \* the next item to be given out in this run
          status,     \* "running", "down", "done"
          crashes
vars == <<final, tmp, at, step, next, status, crashes>>
None == <<<<-1, 0>>>>
Direct == Variant \in {"direct", "always"}
NameOf(i) == IF Variant = "shared" THEN 0 ELSE i

Have(f) == Cardinality({i \in Items : f[i] # None})
FirstOf(f) == IF Variant = "number" THEN Have(f) + 1 ELSE 1

Init == /\ final = [i \in Items |-> None] /\ tmp = [i \in 0..N |-> None]
        /\ at = [w \in 1..Workers |-> 0] /\ step = [w \in 1..Workers |-> "idle"]
        /\ next = 1 /\ status = "running" /\ crashes = 0

Skipped(i) == CASE Variant = "always" -> FALSE
                [] Variant = "missing" -> final[i] # <<>>
                [] Variant = "number" -> FALSE
                [] Variant = "tmpdone" -> final[i] # None \/ tmp[i] # None
                [] OTHER -> final[i] # None /\ final[i] # <<>>

Take(w) == /\ at[w] = 0 /\ next <= N
           /\ next' = next + 1
           /\ IF Skipped(next) THEN UNCHANGED <<at, step>>
              ELSE at' = [at EXCEPT ![w] = next] /\ step' = [step EXCEPT ![w] = "open"]
           /\ UNCHANGED <<final, tmp>>

Cut(f, k, v) == [f EXCEPT ![k] = v]
Put(w, v) == IF Direct THEN final' = Cut(final, at[w], v) /\ UNCHANGED tmp
                       ELSE tmp' = Cut(tmp, NameOf(at[w]), v) /\ UNCHANGED final
Now(w) == IF Direct THEN final[at[w]] ELSE tmp[NameOf(at[w])]

Work(w) ==
    /\ at[w] # 0
    /\ LET i == at[w]
       IN  CASE step[w] = "open" ->
                    /\ Put(w, IF Variant = "append" /\ Now(w) # None THEN Now(w) ELSE <<>>)
                    /\ step' = [step EXCEPT ![w] = "first"] /\ UNCHANGED at
             [] step[w] = "first" ->
                    /\ Put(w, IF Now(w) = None THEN None ELSE Append(Now(w), <<i, 1>>))
                    /\ step' = [step EXCEPT ![w] = IF Variant = "early" THEN "rename" ELSE "second"] /\ UNCHANGED at
             [] step[w] = "second" ->
                    /\ IF Variant = "early" THEN final' = Cut(final, i, Append(final[i], <<i, 2>>)) /\ UNCHANGED tmp
                       ELSE Put(w, IF Now(w) = None THEN None ELSE Append(Now(w), <<i, 2>>))
                    /\ IF Direct \/ Variant = "early"
                       THEN at' = [at EXCEPT ![w] = 0] /\ step' = [step EXCEPT ![w] = "idle"]
                       ELSE step' = [step EXCEPT ![w] = "rename"] /\ UNCHANGED at
             [] step[w] = "rename" ->
                    /\ IF tmp[NameOf(i)] = None THEN UNCHANGED <<final, tmp>>
                       ELSE final' = Cut(final, i, tmp[NameOf(i)]) /\ tmp' = Cut(tmp, NameOf(i), None)
                    /\ IF Variant = "early" THEN step' = [step EXCEPT ![w] = "second"] /\ UNCHANGED at
                       ELSE at' = [at EXCEPT ![w] = 0] /\ step' = [step EXCEPT ![w] = "idle"]
    /\ UNCHANGED next

Idle == \A w \in 1..Workers : at[w] = 0
Run == /\ status = "running"
       /\ \/ (\E w \in 1..Workers : Take(w) \/ Work(w)) /\ UNCHANGED <<status, crashes>>
          \/ next > N /\ Idle /\ status' = "done" /\ UNCHANGED <<final, tmp, at, step, next, crashes>>

Crash == /\ status = "running" /\ crashes < MaxCrashes
         /\ crashes' = crashes + 1 /\ status' = "down"
         /\ at' = [w \in 1..Workers |-> 0] /\ step' = [w \in 1..Workers |-> "idle"]
         /\ UNCHANGED <<final, tmp, next>>

Restart == /\ status \in {"down", "done"} /\ crashes <= MaxCrashes
           /\ status = "done" => crashes < MaxCrashes
           /\ crashes' = IF status = "done" THEN MaxCrashes ELSE crashes
           /\ status' = "running" /\ next' = FirstOf(final)
           /\ UNCHANGED <<final, tmp, at, step>>

Next == Run \/ Crash \/ Restart \/ (status = "done" /\ UNCHANGED vars)

FinalIsComplete == \A i \in Items : final[i] \in {None, All(i)}
NothingLost == status = "done" => \A i \in Items : final[i] = All(i)
=============================================================================
