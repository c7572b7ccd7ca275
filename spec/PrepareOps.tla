----------------------------- MODULE PrepareOps -----------------------------
(* C29: what may be found after runs of the preparation scripts.             *)
(* Each observation was made after a run: status (0: success), faulty (1: it *)
(* was interrupted), and the results that were found.                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

(* want: for every item the numbers of its records. files: <<item, numbers>> *)
(* of every result; item 0: a result that belongs to no item; number 0: a    *)
(* record that differs from all of the input.                                *)
PrepareAllowed(c) ==
    LET o == c.obs
        Ok(f) == f[1] \in 1..Len(c.want) /\ f[2] = c.want[f[1]]
        Items(k) == {o[k].files[i][1] : i \in 1..Len(o[k].files)}
    IN  /\ \A k \in 1..Len(o) :
            /\ \A i \in 1..Len(o[k].files) : Ok(o[k].files[i])
            /\ Cardinality(Items(k)) = Len(o[k].files)
            /\ (o[k].faulty = 0 => o[k].status = 0)
            /\ (o[k].faulty = 0 => Items(k) = 1..Len(c.want))
            \* nothing that was finished is lost
            /\ (k > 1 => Items(k - 1) \subseteq Items(k))
        /\ o[Len(o)].faulty = 0

(* langs: number of files of every language. lines: <<language, number, of>> *)
UrlsAllowed(c) ==
    LET o == c.obs
        FilesOf(l) == [i \in 1..c.langs[l] |-> <<l, i, c.langs[l]>>]
        Upto(n) == FoldLeft(LAMBDA a, l : a \o FilesOf(l), <<>>, [l \in 1..n |-> l])
    IN  /\ \A k \in 1..Len(o) :
            /\ \E n \in 0..Len(c.langs) : o[k].lines = Upto(n)
            /\ (o[k].faulty = 0 => o[k].status = 0 /\ o[k].lines = Upto(Len(c.langs)))
            /\ (k > 1 => Len(o[k].lines) >= Len(o[k - 1].lines))
        /\ o[Len(o)].faulty = 0
=============================================================================
