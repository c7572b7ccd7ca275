------------------------------ MODULE SplitOps ------------------------------
(* C26: what the tools that split data sets have to write.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* lines: 1..m in the order of the file; parts: the lines of the parts
FileSplitAllowed(c) ==
    /\ Len(c.parts) = c.n
    /\ FoldLeft(LAMBDA a, p : a \o p, <<>>, c.parts) = [i \in 1..c.lines |-> i]

PartOfHash(h) == IF h >= 4094 THEN "test" ELSE IF h >= 4092 THEN "valid" ELSE "train"

(* files: sequence of sequences of [t |-> text number, h |-> first 12 bits   *)
(* of its hash]; out: for every file the written documents, sequence of      *)
(* <<part, index of the document, number of the id it was given, 1 if the    *)
(* rest is unchanged>>                                                       *)
PartsAllowed(c) ==
    LET F == 1..Len(c.files)
        Of(f, p) == SelectSeq(c.out[f], LAMBDA x : x[1] = p)
        all == UNION {{<<c.files[f][c.out[f][i][2]].t, c.out[f][i][3]>> : i \in 1..Len(c.out[f])} : f \in F}
    IN  /\ Len(c.out) = Len(c.files)
        /\ \A f \in F :
            /\ Len(c.out[f]) = Len(c.files[f])
            /\ {c.out[f][i][2] : i \in 1..Len(c.out[f])} = 1..Len(c.files[f])
            /\ \A i \in 1..Len(c.out[f]) :
                /\ c.out[f][i][4] = 1
                /\ c.out[f][i][1] = PartOfHash(c.files[f][c.out[f][i][2]].h)
            /\ \A p \in {"train", "valid", "test"} :
                LET q == Of(f, p) IN \A i \in 1..(Len(q) - 1) : q[i][2] < q[i + 1][2]
        \* the id stands for the text
        /\ \A x, y \in all : (x[1] = y[1]) <=> (x[2] = y[2])
=============================================================================
