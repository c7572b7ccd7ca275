------------------------------ MODULE IndexOps ------------------------------
(* C27: what an index may contain after the indexing of files. Documents of  *)
(* a file: [id, len |-> length of the text, 0 for null and empty ones,       *)
(* fields |-> names, broken]. Stored documents: <<id, fields, length of the  *)
(* text, 1 if all of its values are those of the original>>. Ids are numbers.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RangeOf(q) == {q[i] : i \in 1..Len(q)}
Least2(a, b) == IF a < b THEN a ELSE b
\* what has to be stored for a document
Stored(d, o) == <<d.id, (RangeOf(d.fields) \cup {"text"}) \ (RangeOf(o.skipfields) \cup (IF o.idfield = "" THEN {} ELSE {o.idfield})),
                  Least2(d.len, o.maxsize), 1>>
Seen(x) == <<x[1], RangeOf(x[2]), x[3], x[4]>>
NonEmpty(file) == SelectSeq(file, LAMBDA d : d.len > 0 \/ d.broken = 1)
After(q, n) == SubSeq(q, n + 1, Len(q))
\* the documents of a run, file by file
Wanted(c, r) == [k \in 1..Len(r.files) |-> After(NonEmpty(c.files[r.files[k]]), r.skip)]
FlatIds(w) == FoldLeft(LAMBDA a, f : a \o [i \in 1..Len(f) |-> f[i].id], <<>>, w)

RunAllowed(c, r, before) ==
    LET w == TLCEval(Wanted(c, r))
        good == UNION {{Stored(w[k][i], c.opts) : i \in {j \in 1..Len(w[k]) : w[k][j].broken = 0}} : k \in 1..Len(w)}
        now == {Seen(r.index[i]) : i \in 1..Len(r.index)}
        old == {x[1] : x \in before}
        new == {x \in good : x[1] \notin old}
        broken == \E k \in 1..Len(w) : \E i \in 1..Len(w[k]) : w[k][i].broken = 1 \/ w[k][i].id \in RangeOf(r.errors)
        \* lines before the first document may be looked at or not
        any == \E k \in 1..Len(r.files) : \E i \in 1..Len(c.files[r.files[k]]) : c.files[r.files[k]][i].broken = 1
    IN  /\ Cardinality({x[1] : x \in now}) = Len(r.index)
        /\ before \subseteq now
        /\ now \subseteq before \cup new
        /\ broken => r.status # 0
        /\ r.status = 0 => now = before \cup new
        /\ (~broken /\ ~any /\ r.faulty = 0) => r.status = 0
        \* the saved ids: of the files that were processed completely
        /\ r.saves = 1 =>
            IF r.status = 0 THEN r.ids = FlatIds(w)
            ELSE r.noids = 1 \/ \E n \in 0..Len(w) : r.ids = FlatIds(SubSeq(w, 1, n))

IndexAllowed(c) ==
    \A i \in 1..Len(c.runs) :
        RunAllowed(c, c.runs[i], {Seen(x) : x \in RangeOf(IF i = 1 THEN c.initial ELSE c.runs[i - 1].index)})

\* random access: documents (id, found, same as in the index) for n requested ones
AccessAllowed(c) ==
    /\ Len(c.out) = c.n
    /\ \A i \in 1..c.n : c.out[i][1] \in RangeOf(c.ids) /\ c.out[i][2] = 1
=============================================================================
