-------------------------------- MODULE Split -------------------------------
(* C26: files of up to MaxLines lines are cut into n parts; several tools    *)
(* run at once and need the same directory.                                  *)
(* Variant: "ok", or                                                         *)
(*   "losttail"  the last part is as long as the others                      *)
(*   "ceil"      parts are rounded up and the first n - 1 are taken first    *)
(*   "overlap"   a part begins with the last line of the previous one        *)
(*   "shared"    every part but the last is written under the same name      *)
(*   "race"      making a directory that exists is an error                  *)
EXTENDS SplitOps, TLC

CONSTANTS MaxLines, MaxN, Tools, Variant

VARIABLES lines, n, part, parts,      \* cutting
          pc, dir                     \* the tools and the directory
vars == <<lines, n, part, parts, pc, dir>>

Init == /\ lines \in 0..MaxLines /\ n \in 1..MaxN
        /\ part = 0 /\ parts = [i \in 1..n |-> <<0>>]
        /\ pc = [t \in 1..Tools |-> "check"]
        /\ dir \in BOOLEAN

Chunk == lines \div n
Slice(a, b) == LET m == IF b < lines THEN b ELSE lines
               IN  IF m <= a THEN <<>> ELSE [i \in 1..(m - a) |-> a + i]

Cut == /\ part < n
       /\ LET a == part * Chunk
              b == IF part = n - 1 /\ Variant # "losttail" THEN lines ELSE (part + 1) * Chunk
              c == IF Variant = "overlap" /\ part > 0 /\ a > 0 THEN a - 1 ELSE a
              p == IF Variant = "shared" /\ part < n - 1 THEN 1 ELSE part + 1
          IN  parts' = [parts EXCEPT ![p] = Slice(c, b)]
       /\ part' = part + 1
       /\ UNCHANGED <<lines, n, pc, dir>>

Check(t) == /\ pc[t] = "check"
            /\ pc' = [pc EXCEPT ![t] = IF dir THEN "open" ELSE "make"]
            /\ UNCHANGED <<lines, n, part, parts, dir>>
Make(t) == /\ pc[t] = "make"
           /\ pc' = [pc EXCEPT ![t] = IF dir /\ Variant = "race" THEN "failed" ELSE "open"]
           /\ dir' = TRUE
           /\ UNCHANGED <<lines, n, part, parts>>

Over == part = n /\ \A t \in 1..Tools : pc[t] \notin {"check", "make"}
Next == Cut \/ (\E t \in 1..Tools : Check(t) \/ Make(t)) \/ (Over /\ UNCHANGED vars)

Right == part = n => FileSplitAllowed([n |-> n, lines |-> lines, parts |-> parts])
NoneFails == \A t \in 1..Tools : pc[t] # "failed"
CanOpen == \A t \in 1..Tools : pc[t] = "open" => dir
=============================================================================
