---------------------------- MODULE OverlapNames ----------------------------
(* C22: the lists as files of one directory, for data sets whose names may   *)
(* contain the conjunction. A run looks at all names before it writes.       *)
(* Variant: "ok", or                                                         *)
(*   "unchecked"  the names are not looked at                                *)
(*   "singles"    only lists of the data sets themselves are protected       *)
(*   "late"       a combination is looked at when its turn has come          *)
EXTENDS OverlapOps, TLC

CONSTANTS K, N, Parts, Variant

NameSet == UNION {[1..k -> Parts] : k \in 1..2}
All == Members(N)
Combos == {m \in All : Len(m) > 1}

VARIABLES names, sets, dir, done, state
vars == <<names, sets, dir, done, state>>

File(m) == FileOf(names, m)

Init == /\ names \in {f \in [1..N -> NameSet] : \A i, j \in 1..N : i # j => f[i] # f[j]}
        /\ sets \in [1..N -> SUBSET (1..K)]
        /\ dir = [x \in {File(<<i>>) : i \in 1..N} |-> sets[CHOOSE i \in 1..N : File(<<i>>) = x]]
        /\ done = {}
        /\ state = "new"

Refused == CASE Variant \in {"unchecked", "late"} -> FALSE
             [] Variant = "singles" -> \E m \in Combos : \E i \in 1..N : File(m) = File(<<i>>)
             [] OTHER -> Ambiguous(names)

Look == /\ state = "new"
        /\ state' = IF Refused THEN "failed" ELSE "running"
        /\ UNCHANGED <<names, sets, dir, done>>

NextCombo == CHOOSE m \in Combos \ done : \A o \in Combos \ done : Len(m) <= Len(o)

Compute ==
    /\ state = "running" /\ done # Combos
    /\ LET m == NextCombo
           r == dir[File(SubSeq(m, 1, Len(m) - 1))] \cap dir[File(<<m[Len(m)]>>)]
       IN  IF Variant = "late" /\ \E o \in done : File(o) = File(m)
           THEN state' = "failed" /\ UNCHANGED <<dir, done>>
           ELSE dir' = (File(m) :> r) @@ dir /\ done' = done \cup {m} /\ UNCHANGED state
    /\ UNCHANGED <<names, sets>>

End == /\ state = "running" /\ done = Combos /\ state' = "ok" /\ UNCHANGED <<names, sets, dir, done>>

Next == Look \/ Compute \/ End \/ (state \in {"ok", "failed"} /\ UNCHANGED vars)

Intact == \A i \in 1..N : dir[File(<<i>>)] = sets[i]
Lists == state = "ok" => \A m \in Combos : dir[File(m)] = {x \in 1..K : \A i \in 1..Len(m) : x \in sets[m[i]]}
OnlyIfAmbiguous == state = "failed" => Ambiguous(names)
=============================================================================
