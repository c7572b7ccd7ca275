---------------------------- MODULE CounterHist -----------------------------
(* C04, C05: what may be observed of an n-gram counter from outside.         *)
(* These are the properties of Counter.tla, stated on a recorded history:    *)
(*   ops    <<[t, op |-> "inc"/"dec", g, by, c |-> call, r |-> return, v]>>  *)
(*   finals <<[g, v]>>  (max_count of g after everything)                    *)
(* c and r are positions in the history; a thread's operations are in order. *)
EXTENDS Limbs, Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions

HMin(a, b) == IF a < b THEN a ELSE b
HMinus(a, b) == IF a < b THEN 0 ELSE a - b

Up(v, by, max) == IF by > max - v THEN max ELSE v + by
Apply(v, o, max) == IF o.op = "inc" THEN Up(v, o.by, max) ELSE HMinus(v, o.by)

SumOf(ops, S) == FoldSet(LAMBDA i, a : a + ops[i].by, 0, S)
Of(ops, g) == {i \in 1..Len(ops) : ops[i].g = g}
Before(ops, i) == {j \in Of(ops, ops[i].g) : ops[j].r < ops[i].c}
Started(ops, i) == {j \in Of(ops, ops[i].g) : ops[j].c < ops[i].r}
GramsOf(ops, finals) == {ops[i].g : i \in 1..Len(ops)} \cup {finals[i].g : i \in 1..Len(finals)}

\* Every value a cell of its own could have after the operations S took effect in some order that respects
\* which of them were over before others began.
RECURSIVE Outcomes(_, _, _, _)
Outcomes(ops, S, init, max) ==
    IF S = {} THEN {init}
    ELSE UNION {{Apply(v, ops[i], max) : v \in Outcomes(ops, S \ {i}, init, max)} :
                i \in {x \in S : \A y \in S : ~(ops[x].r < ops[y].c)}}

OnlyOf(ops, k) == \A i \in 1..Len(ops) : ops[i].op = k

\* exact: no two of the n-grams share a cell
HistAllowed(max, init, ops, finals, exact) ==
    /\ \A i \in 1..Len(ops) : ops[i].v \in 0..max
    /\ \A i \in 1..Len(finals) : finals[i].v \in 0..max
    /\ OnlyOf(ops, "inc") =>
        /\ \A i \in 1..Len(ops) :
            /\ ops[i].v >= HMin(max, init + ops[i].by + SumOf(ops, Before(ops, i)))
            /\ exact => ops[i].v <= HMin(max, init + SumOf(ops, Started(ops, i)))
        /\ \A g \in GramsOf(ops, <<>>) : \E i \in Of(ops, g) : ops[i].v >= HMin(max, init + SumOf(ops, Of(ops, g)))
        /\ \A i \in 1..Len(finals) :
            LET total == HMin(max, init + SumOf(ops, Of(ops, finals[i].g)))
            IN  IF exact THEN finals[i].v = total ELSE finals[i].v >= total
    /\ (OnlyOf(ops, "dec") /\ Len(ops) > 0) =>
        /\ \A i \in 1..Len(ops) :
            /\ ops[i].v <= HMinus(init, ops[i].by + SumOf(ops, Before(ops, i)))
            /\ exact => ops[i].v >= HMinus(init, SumOf(ops, Started(ops, i)))
        /\ \A i \in 1..Len(finals) :
            LET rest == HMinus(init, SumOf(ops, Of(ops, finals[i].g)))
            IN  IF exact THEN finals[i].v = rest ELSE finals[i].v <= rest
    /\ exact =>
        /\ \A i \in 1..Len(finals) : finals[i].v \in Outcomes(ops, Of(ops, finals[i].g), init, max)
        /\ \A i \in 1..Len(ops) :
            \* what an operation returns lies between what the cells can have been
            LET must == Before(ops, i) \cup {i}
                vals == UNION {Outcomes(ops, must \cup S, init, max) : S \in SUBSET (Started(ops, i) \ must)}
            IN  ops[i].v >= Min(vals) /\ ops[i].v <= Max(vals)

\* One thread, numbers of any width: every n-gram has a counter of its own.
\* ops: <<[op |-> "inc"/"dec"/"max", g, by, v]>>
RECURSIVE SeqFrom(_, _, _, _, _)
SeqFrom(ops, i, st, max, init) ==
    IF i > Len(ops) THEN TRUE
    ELSE LET o == ops[i]
             old == st[o.g]
             new == CASE o.op = "inc" -> SatAdd64(old, o.by, max)
                      [] o.op = "dec" -> SatSub64(old, o.by)
                      [] OTHER -> old
         IN  o.v = new /\ SeqFrom(ops, i + 1, [st EXCEPT ![o.g] = new], max, init)
SeqAllowed(max, init, ngrams, ops) ==
    SeqFrom(ops, 1, [g \in 1..ngrams |-> init], max, init)
=============================================================================
