------------------------------ MODULE Overlap -------------------------------
(* C22: the lists of all combinations of data sets, built from small to      *)
(* large: the list of a combination is what the list of the combination      *)
(* without its last data set and the list of that data set have in common.   *)
(* The directory may hold lists of earlier runs.                             *)
(* Variant: "ok", or                                                         *)
(*   "keepstale"  nothing is written when one of the lists is empty          *)
(*   "reuse"      a list that exists already is not computed again           *)
(*   "large"      combinations are visited from large to small               *)
(*   "alldups"    lines that occur twice in one list count as common         *)
(*   "append"     the list is appended to an existing one                    *)
(*   "addsizes"   the sizes are appended to those of the run before          *)
EXTENDS OverlapOps, TLC

CONSTANTS K,        \* lines 1..K
          N,        \* data sets
          Runs,     \* runs in the same directory
          Variant

Combos == {m \in UNION {[1..n -> 1..N] : n \in 2..N} : \A i \in 1..(Len(m) - 1) : m[i] < m[i + 1]}
Singles == {<<i>> : i \in 1..N}

VARIABLES sets,     \* contents of the data sets in this run
          list,     \* [combination] list in the directory, <<0>> for none
          done,     \* combinations that were computed in this run
          sizes,    \* the file of sizes
          sized,    \* it was written in this run
          run

vars == <<sets, list, done, sizes, sized, run>>

Written(s) == IF Variant = "alldups" THEN Sorted(s) \o (IF s = {} THEN <<>> ELSE <<Max(s)>>) ELSE Sorted(s)

Init == /\ sets \in [1..N -> SUBSET (1..K)]
        /\ list = [m \in Singles \cup Combos |-> IF m \in Singles THEN Written(sets[m[1]]) ELSE <<0>>]
        /\ done = {}
        /\ sizes = <<>> /\ sized = FALSE
        /\ run = 1

\* sort -m, uniq -c, more than once
Merge(a, b) == LET n(x) == Multiplicity(a, x) + Multiplicity(b, x)
               IN  Sorted({x \in Items(a) \cup Items(b) : n(x) > 1})

Rank(m) == IF Variant = "large" THEN N - Len(m) ELSE Len(m)
NextCombo == CHOOSE m \in Combos \ done : \A o \in Combos \ done : Rank(m) <= Rank(o)

Compute ==
    /\ done # Combos
    /\ LET m == NextCombo
           a == list[SubSeq(m, 1, Len(m) - 1)]
           b == list[<<m[Len(m)]>>]
           r == IF a = <<>> \/ b = <<>> THEN <<>> ELSE Merge(a, b)
           old == list[m]
       IN  list' = [list EXCEPT ![m] =
                      CASE Variant = "keepstale" /\ (a = <<>> \/ b = <<>>) -> IF old = <<0>> THEN <<>> ELSE old
                        [] Variant = "reuse" /\ old # <<0>> -> old
                        [] Variant = "append" /\ old # <<0>> -> old \o r
                        [] OTHER -> r]
    /\ done' = done \cup {NextCombo}
    /\ UNCHANGED <<sets, sizes, sized, run>>

\* wc of every list
Sizes ==
    /\ done = Combos /\ ~sized
    /\ LET now == SetToSeq({[m |-> m, n |-> Len(list[m])] : m \in Singles \cup Combos})
       IN  sizes' = IF Variant = "addsizes" THEN sizes \o now ELSE now
    /\ sized' = TRUE
    /\ UNCHANGED <<sets, list, done, run>>

\* another run in the same directory, with other data
Again ==
    /\ sized /\ run < Runs
    /\ \E s \in [1..N -> SUBSET (1..K)] :
        /\ sets' = s
        /\ list' = [m \in DOMAIN list |-> IF m \in Singles THEN Written(s[m[1]]) ELSE list[m]]
    /\ done' = {}
    /\ sized' = FALSE
    /\ run' = run + 1
    /\ UNCHANGED sizes

Next == Compute \/ Sizes \/ Again \/ (sized /\ run = Runs /\ UNCHANGED vars)

SizesRight == sized => SizesAllowed([i \in 1..N |-> SetToSeq(sets[i])], sizes)

Right == \A m \in done : list[m] = Sorted({x \in 1..K : \A i \in 1..Len(m) : x \in sets[m[i]]})
=============================================================================
