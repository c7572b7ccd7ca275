------------------------------ MODULE UrlList -------------------------------
(* C29: listing the files of every language by probing how many there are.   *)
(* A run continues after the languages that the list of an earlier run has,  *)
(* may be interrupted (it then writes what it has) or ended at any point.    *)
(* Variant: "ok", or                                                         *)
(*   "inplace"  the list is overwritten instead of replaced                  *)
(*   "partial"  the language during which the run is interrupted is kept     *)
(*   "again"    the last language of the list is listed again                *)
(*   "onemore"  continues one language too late                              *)
(*   "lines"    continues after as many languages as the list has lines      *)
(*   "first"    the first probe that succeeds is taken for the second        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS Langs,      \* number of files of every language
          MaxStops, Variant

L == Len(Langs)
FilesOf(l) == [i \in 1..Langs[l] |-> <<l, i, Langs[l]>>]
Everything == FoldLeft(LAMBDA a, l : a \o FilesOf(l), <<>>, [l \in 1..L |-> l])

VARIABLES file,       \* the list on disk
          new,        \* what is being written; <<-1>>: nothing
          urls, lang, \* of the run
          probe,      \* number of files that is tried
          pc, stops
vars == <<file, new, urls, lang, probe, pc, stops>>
Nothing == <<<<-1, 0, 0>>>>

LangsOf(s) == {s[i][1] : i \in 1..Len(s)}

Init == file = <<>> /\ new = Nothing /\ urls = <<>> /\ lang = 0 /\ probe = 1 /\ pc = "read" /\ stops = 0

Read == /\ pc = "read"
        /\ urls' = file
        /\ lang' = 1 + CASE Variant = "onemore" -> IF file = <<>> THEN 0 ELSE Cardinality(LangsOf(file)) + 1
                         [] Variant = "again" -> IF file = <<>> THEN 0 ELSE Cardinality(LangsOf(file)) - 1
                         [] Variant = "lines" -> Len(file)
                         [] OTHER -> Cardinality(LangsOf(file))
        /\ probe' = 1 /\ pc' = "probe" /\ UNCHANGED <<file, new, stops>>

Probe == /\ pc = "probe"
         /\ IF lang > L THEN pc' = "write" /\ UNCHANGED <<probe, urls>>
            ELSE IF probe = Langs[lang] THEN pc' = "add" /\ UNCHANGED <<probe, urls>>
            ELSE probe' = probe + 1 /\ UNCHANGED <<pc, urls>>
         /\ UNCHANGED <<file, new, lang, stops>>

Listed == Cardinality({i \in 1..Len(urls) : urls[i][1] = lang})
Number == IF Variant = "first" THEN probe + 1 ELSE probe
Add == /\ pc = "add"
       /\ IF Listed >= Number /\ Variant # "again"
          THEN lang' = lang + 1 /\ probe' = 1 /\ pc' = "probe" /\ UNCHANGED urls
          ELSE IF Variant = "again" /\ Cardinality({i \in 1..Len(urls) : urls[i] = <<lang, probe, probe>>}) > 0
          THEN lang' = lang + 1 /\ probe' = 1 /\ pc' = "probe" /\ urls' = Append(urls, <<lang, probe, probe>>)
          ELSE urls' = Append(urls, <<lang, Listed + 1, Number>>) /\ UNCHANGED <<lang, probe, pc>>
       /\ UNCHANGED <<file, new, stops>>

\* an interruption by the user: the language that is not complete is dropped
Interrupt == /\ pc \in {"probe", "add"} /\ stops < MaxStops /\ lang <= L
             /\ stops' = stops + 1
             /\ urls' = IF Variant = "partial" THEN urls ELSE SelectSeq(urls, LAMBDA u : u[1] # lang)
             /\ pc' = "writepart" /\ UNCHANGED <<file, new, lang, probe>>

Half(s) == SubSeq(s, 1, Len(s) \div 2)
Writing == pc \in {"write", "writepart"}
Open == /\ Writing /\ new = Nothing
        /\ IF Variant = "inplace" THEN file' = <<>> /\ new' = <<>> ELSE new' = <<>> /\ UNCHANGED file
        /\ UNCHANGED <<urls, lang, probe, pc, stops>>
Some == /\ Writing /\ new # Nothing /\ new # urls
        /\ new' = IF Len(new) < Len(urls) \div 2 THEN Half(urls) ELSE urls
        /\ file' = IF Variant = "inplace" THEN new' ELSE file
        /\ UNCHANGED <<urls, lang, probe, pc, stops>>
Replace == /\ Writing /\ new # Nothing /\ new = urls
           /\ file' = urls /\ new' = Nothing
           /\ pc' = IF pc = "write" THEN "done" ELSE "down"
           /\ UNCHANGED <<urls, lang, probe, stops>>

Kill == /\ pc \notin {"down", "done"} /\ stops < MaxStops
        /\ stops' = stops + 1 /\ pc' = "down" /\ new' = Nothing
        /\ UNCHANGED <<file, urls, lang, probe>>
Restart == pc = "down" /\ pc' = "read" /\ UNCHANGED <<file, new, urls, lang, probe, stops>>
\* a complete list is not changed by another run
Rerun == pc = "done" /\ stops < MaxStops /\ stops' = MaxStops /\ pc' = "read" /\ UNCHANGED <<file, new, urls, lang, probe>>

Next == Read \/ Probe \/ Add \/ Interrupt \/ Open \/ Some \/ Replace \/ Kill \/ Restart \/ Rerun \/ (pc = "done" /\ UNCHANGED vars)

PrefixLists == {FoldLeft(LAMBDA a, l : a \o FilesOf(l), <<>>, [l \in 1..k |-> l]) : k \in 0..L}
OnlyComplete == pc # "writepart" /\ pc # "write" => file \in PrefixLists
NothingLost == pc = "done" => file = Everything
=============================================================================
