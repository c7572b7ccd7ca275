------------------------------ MODULE EsPaging ------------------------------
(* C23: retrieving all hits page by page from an index to which documents    *)
(* are added meanwhile. Hits come in the order of their sort values; within  *)
(* a point in time, ties are ordered by the position of the document.        *)
(* Variant: "ok", or                                                         *)
(*   "live"   no point in time: the index is searched as it is               *)
(*   "from"   pages by offset in the index as it is                          *)
(*   "ge"     the next page starts with the last hit                         *)
(*   "value"  only the value of the sort field is passed on                  *)
(*   "oldid"  the first id of the point in time is used for all pages        *)
(*   "short"  stops at the first page that is not full (also right)          *)
(*   "full"   stops at the first page that is full                           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

CONSTANTS Keys,     \* values of the sort field
          N,        \* documents at first
          Adds,     \* documents that may be added
          Size,     \* of a page
          Variant

VARIABLES key,      \* sequence of sort values, one for each document in the index
          snap,     \* number of documents in the point in time, -1 before
          gen,      \* requests that were made with the point in time
          after,    \* <<>> or <<key, position>> of the last hit
          out,      \* documents that were yielded
          pc        \* "page", "done", "error"

vars == <<key, snap, gen, after, out, pc>>
Live == Variant \in {"live", "from"}

Init == /\ key \in [1..N -> Keys]
        /\ snap = -1 /\ gen = 0 /\ after = <<>> /\ out = <<>> /\ pc = "page"

Add == /\ Len(key) < N + Adds /\ snap >= 0 /\ pc = "page"
       /\ \E k \in Keys : key' = Append(key, k)
       /\ UNCHANGED <<snap, gen, after, out, pc>>

Before(a, b) == key[a] < key[b] \/ (key[a] = key[b] /\ a < b)
Ordered(S) == SetToSortSeq(S, Before)
Take(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)

Page ==
    /\ pc = "page"
    /\ IF Variant = "oldid" /\ gen > 1
       THEN pc' = "error" /\ UNCHANGED <<key, snap, gen, after, out>>
       ELSE LET visible == IF Live THEN 1..Len(key) ELSE IF snap = -1 THEN 1..Len(key) ELSE 1..snap
                rest == IF after = <<>> \/ Variant = "from" THEN visible
                        ELSE {d \in visible :
                               IF Variant \in {"live", "value"} THEN key[d] > after[1]
                               ELSE \/ key[d] > after[1]
                                    \/ key[d] = after[1] /\ (d > after[2] \/ (Variant = "ge" /\ d = after[2]))}
                all == Ordered(rest)
                page == IF Variant = "from" THEN Take(SubSeq(all, Len(out) + 1, Len(all)), Size) ELSE Take(all, Size)
            IN  /\ snap' = IF snap = -1 THEN Len(key) ELSE snap
                /\ gen' = gen + 1
                /\ out' = out \o page
                /\ after' = IF page = <<>> THEN after ELSE <<key[Last(page)], Last(page)>>
                /\ pc' = IF page = <<>> \/ (Variant = "short" /\ Len(page) < Size) \/ (Variant = "full" /\ Len(page) = Size)
                         THEN "done" ELSE "page"
                /\ UNCHANGED key

Next == Add \/ Page \/ (pc \in {"done", "error"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Page)

Once == Cardinality({out[i] : i \in 1..Len(out)}) = Len(out)
All == pc = "done" => \A d \in 1..snap : \E i \in 1..Len(out) : out[i] = d
NoError == pc # "error"
Ends == <>(pc = "done")
=============================================================================
