------------------------------ MODULE Counter -------------------------------
(* C04, C05: the counting Bloom filter (src/ngrams/counter.rs) as its atomic *)
(* steps. An n-gram has one cell per hash function; n-grams may share cells. *)
(* An increment updates its cells one after another (each update is one      *)
(* saturating atomic operation) and then reads all of them again.            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, Functions, TLC

CONSTANTS
    Prog,     \* thread -> sequence of [op |-> "inc"/"dec", g, by]
    CellsOf,  \* n-gram -> sequence of cells
    MaxVal, InitVal,
    Variant

Threads == 1..Len(Prog)
Cells == UNION {Range(CellsOf[g]) : g \in 1..Len(CellsOf)}
Min2(a, b) == IF a < b THEN a ELSE b

VARIABLES cell, th, \* thread -> [pc, pos, h, acc, tmp]
          hist      \* calls and returns
vars == <<cell, th, hist>>

Start == [pc |-> "idle", pos |-> 1, h |-> 0, acc |-> 0, tmp |-> 0]
Init ==
    /\ cell = [c \in Cells |-> InitVal]
    /\ th = [t \in Threads |-> Start]
    /\ hist = <<>>

Op(t) == Prog[t][th[t].pos]
C(t) == CellsOf[Op(t).g][th[t].h]
NH(t) == Len(CellsOf[Op(t).g])

SatAdd(v, by) == IF v + by > MaxVal THEN MaxVal ELSE v + by
SatSub(v, by) == IF v < by THEN 0 ELSE v - by
\* what a value looks like after an overflow
Wrap(v) == v % (MaxVal + 1)

Call(t) ==
    /\ th[t].pc = "idle" /\ th[t].pos <= Len(Prog[t])
    /\ th' = [th EXCEPT ![t].pc = "upd", ![t].h = 1, ![t].acc = IF Op(t).op = "inc" THEN MaxVal ELSE 0]
    /\ hist' = Append(hist, [e |-> "c", t |-> t, op |-> Op(t)])
    /\ UNCHANGED cell

New(t, v) == IF Op(t).op = "inc" THEN SatAdd(v, Op(t).by) ELSE SatSub(v, Op(t).by)

\* after updating the last cell: decrements return the maximum they have seen, increments read again
After(t, seen) ==
    LET s == th[t]
        acc == IF Op(t).op = "dec" \/ Variant = "earlymin"
               THEN (IF Op(t).op = "dec" THEN (IF seen > s.acc THEN seen ELSE s.acc) ELSE Min2(seen, s.acc))
               ELSE s.acc
    IN  IF s.h < NH(t) THEN [s EXCEPT !.pc = "upd", !.h = @ + 1, !.acc = acc]
        ELSE IF Op(t).op = "dec" \/ Variant = "earlymin" THEN [s EXCEPT !.pc = "ret", !.acc = acc]
        ELSE [s EXCEPT !.pc = "read", !.h = 1]

Update(t) ==
    /\ th[t].pc = "upd"
    /\ LET v == cell[C(t)]
       IN  CASE Variant = "split" ->       \* broken: load, then store
                  /\ th' = [th EXCEPT ![t].pc = "store", ![t].tmp = New(t, v)] /\ UNCHANGED cell
             [] Variant = "wrapfix" /\ Op(t).op = "inc" -> \* broken: add, then repair an overflow
                  /\ cell' = [cell EXCEPT ![C(t)] = Wrap(v + Op(t).by)]
                  /\ th' = [th EXCEPT ![t] = IF v + Op(t).by > MaxVal THEN [@ EXCEPT !.pc = "repair"]
                                             ELSE After(t, v + Op(t).by)]
             [] Variant = "nosat" ->
                  /\ cell' = [cell EXCEPT ![C(t)] = Wrap(IF Op(t).op = "inc" THEN v + Op(t).by
                                                         ELSE v + MaxVal + 1 - Op(t).by)]
                  /\ th' = [th EXCEPT ![t] = After(t, cell'[C(t)])]
             [] OTHER ->
                  /\ cell' = [cell EXCEPT ![C(t)] = New(t, v)]
                  /\ th' = [th EXCEPT ![t] = After(t, New(t, v))]
    /\ UNCHANGED hist

Store(t) ==
    /\ th[t].pc = "store"
    /\ cell' = [cell EXCEPT ![C(t)] = th[t].tmp]
    /\ th' = [th EXCEPT ![t] = After(t, th[t].tmp)]
    /\ UNCHANGED hist

Repair(t) ==
    /\ th[t].pc = "repair"
    /\ cell' = [cell EXCEPT ![C(t)] = MaxVal]
    /\ th' = [th EXCEPT ![t] = After(t, MaxVal)]
    /\ UNCHANGED hist

Read(t) ==
    /\ th[t].pc = "read"
    /\ LET acc == Min2(th[t].acc, cell[C(t)])
       IN  th' = [th EXCEPT ![t] = IF @.h < NH(t) THEN [@ EXCEPT !.h = @ + 1, !.acc = acc]
                                   ELSE [@ EXCEPT !.pc = "ret", !.acc = acc]]
    /\ UNCHANGED <<cell, hist>>

Return(t) ==
    /\ th[t].pc = "ret"
    /\ hist' = Append(hist, [e |-> "r", t |-> t, v |-> th[t].acc, op |-> Op(t)])
    /\ th' = [th EXCEPT ![t].pc = "idle", ![t].pos = @ + 1]
    /\ UNCHANGED cell

AllDone == \A t \in Threads : th[t].pc = "idle" /\ th[t].pos > Len(Prog[t])
Finished == AllDone /\ UNCHANGED vars
Next == (\E t \in Threads : Call(t) \/ Update(t) \/ Store(t) \/ Repair(t) \/ Read(t) \/ Return(t)) \/ Finished
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
IncsOf(g) == UNION {{<<t, i>> : i \in {x \in 1..Len(Prog[t]) : Prog[t][x].g = g /\ Prog[t][x].op = "inc"}} : t \in Threads}
DecsOf(g) == UNION {{<<t, i>> : i \in {x \in 1..Len(Prog[t]) : Prog[t][x].g = g /\ Prog[t][x].op = "dec"}} : t \in Threads}
SumBy(S) == FoldSet(LAMBDA x, a : a + Prog[x[1]][x[2]].by, 0, S)
OnlyIncs == \A g \in 1..Len(CellsOf) : DecsOf(g) = {}
OnlyDecs == \A g \in 1..Len(CellsOf) : IncsOf(g) = {}

Pos(k, t) == Cardinality({j \in 1..k : hist[j].e = "r" /\ hist[j].t = t})
CallOf(k) == Max({j \in 1..k : hist[j].e = "c" /\ hist[j].t = hist[k].t})
CompletedBefore(k, g, kind) ==
    {j \in 1..Len(hist) : hist[j].e = "r" /\ j < CallOf(k) /\ hist[j].op.g = g /\ hist[j].op.op = kind}
SumH(S) == FoldSet(LAMBDA j, a : a + hist[j].op.by, 0, S)
Returns == {k \in 1..Len(hist) : hist[k].e = "r"}

\* an increment returns at least what has completed, including itself
NeverTooLow ==
    OnlyIncs => \A k \in Returns :
        hist[k].v >= Min2(MaxVal, InitVal + hist[k].op.by + SumH(CompletedBefore(k, hist[k].op.g, "inc")))
\* ... and somebody gets to see the total
SomebodySeesTotal ==
    (OnlyIncs /\ AllDone) => \A g \in 1..Len(CellsOf) : IncsOf(g) # {} =>
        \E k \in Returns : hist[k].op.g = g /\ hist[k].v >= Min2(MaxVal, InitVal + SumBy(IncsOf(g)))
\* cells never get below (above) what belongs to them
CellsHold ==
    AllDone => \A g \in 1..Len(CellsOf) :
        /\ OnlyIncs => \A c \in Range(CellsOf[g]) : cell[c] >= Min2(MaxVal, InitVal + SumBy(IncsOf(g)))
        /\ OnlyDecs => \A c \in Range(CellsOf[g]) : cell[c] <= (IF InitVal > SumBy(DecsOf(g)) THEN InitVal - SumBy(DecsOf(g)) ELSE 0)
\* values never wrap: with increments only they never fall, with decrements only they never rise
NoWrap == [][/\ OnlyIncs => \A c \in Cells : cell'[c] >= cell[c]
             /\ OnlyDecs => \A c \in Cells : cell'[c] <= cell[c]]_vars
ReturnsInRange == \A k \in Returns : hist[k].v \in 0..MaxVal
\* without collisions and saturation the final values are exact
Collide == \E g, h \in 1..Len(CellsOf) : g # h /\ Range(CellsOf[g]) \cap Range(CellsOf[h]) # {}
ExactAlone ==
    (AllDone /\ ~Collide /\ (OnlyIncs \/ OnlyDecs)) => \A g \in 1..Len(CellsOf) : \A c \in Range(CellsOf[g]) :
        cell[c] = IF OnlyIncs THEN Min2(MaxVal, InitVal + SumBy(IncsOf(g)))
                  ELSE IF InitVal > SumBy(DecsOf(g)) THEN InitVal - SumBy(DecsOf(g)) ELSE 0
=============================================================================
