------------------------------- MODULE Repro --------------------------------
(* C18: what a seed promises. The hash functions are an arbitrary function H *)
(* of the seed (so n-grams may collide in any way); a process runs topk,     *)
(* botk or unique on the files under every schedule of its threads. With the *)
(* seed fixed the result must be the one that H and the files determine:     *)
(* always for unique and botk, for topk if there is one worker.              *)
EXTENDS TopKOps, TLC

CONSTANTS Files, NumGrams, NumCells, Mode, W, K, Thr, CellMax, Variant

NF == Len(Files)
Grams == 1..NumGrams
Cells == 1..NumCells
Hashes == {h \in [Grams -> Cells \X Cells] : TRUE}

VARIABLES H,      \* the hash functions that the seed stands for
          cells, next, wk, chan, top, pub, pass, pc, result
vars == <<H, cells, next, wk, chan, top, pub, pass, pc, result>>

Idle == [pc |-> "idle", f |-> 0, pos |-> 0, loc |-> EmptyTopK, out |-> <<>>]
Init == /\ H \in Hashes
        /\ cells = [c \in Cells |-> 0]
        /\ next = 1 /\ wk = [i \in 1..W |-> Idle] /\ chan = <<>> /\ top = EmptyTopK /\ pub = 1
        /\ pass = 1 /\ pc = "run" /\ result = {}

Up(n) == IF n >= CellMax THEN CellMax ELSE n + 1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* the rank of a rare n-gram: CellMax + 1 - estimate
Est(cs, g) == Min2(cs[H[g][1]], cs[H[g][2]])
Inv(cs, g) == CellMax + 1 - Est(cs, g)

Take(i) == /\ pc = "run" /\ wk[i].pc = "idle" /\ next <= NF
           /\ wk' = [wk EXCEPT ![i] = [Idle EXCEPT !.pc = "gram", !.f = next, !.pos = 1]]
           /\ next' = next + 1 /\ UNCHANGED <<H, cells, chan, top, pub, pass, pc, result>>

Cur(i) == Files[wk[i].f][wk[i].pos]
More(i) == wk[i].pos < Len(Files[wk[i].f])
Advance(w, i) == IF w[i].pos < Len(Files[w[i].f]) THEN [w EXCEPT ![i].pc = "gram", ![i].pos = @ + 1]
                 ELSE [w EXCEPT ![i].pc = "drain", ![i].out = Descending(w[i].loc.e)]
Adding == Mode # "botk" \/ pass = 1

\* the two cells of an n-gram are updated one after the other
Cell1(i) == /\ wk[i].pc = "gram" /\ Adding
            /\ cells' = [cells EXCEPT ![H[Cur(i)][1]] = Up(@)]
            /\ wk' = [wk EXCEPT ![i].pc = "cell2"] /\ UNCHANGED <<H, next, chan, top, pub, pass, pc, result>>
Cell2(i) == /\ wk[i].pc = "cell2"
            /\ cells' = [cells EXCEPT ![H[Cur(i)][2]] = Up(@)]
            /\ wk' = IF Mode = "topk" THEN [wk EXCEPT ![i].pc = "filter"] ELSE Advance(wk, i)
            /\ UNCHANGED <<H, next, chan, top, pub, pass, pc, result>>
Pass(c, m) == IF Variant = "strict" THEN c > m ELSE c >= m
Filter(i) == /\ \/ wk[i].pc = "filter"
                \/ wk[i].pc = "gram" /\ ~Adding
             /\ LET c == IF Mode = "botk" THEN Inv(cells, Cur(i)) ELSE Est(cells, Cur(i))
                    ok == c > Thr /\ c >= wk[i].loc.min /\ Pass(c, pub)
                IN  wk' = Advance(IF ok THEN [wk EXCEPT ![i].loc = InsertTopK(@, K, Cur(i), c)] ELSE wk, i)
             /\ UNCHANGED <<H, cells, next, chan, top, pub, pass, pc, result>>
Drain(i) == /\ wk[i].pc = "drain"
            /\ IF wk[i].out = <<>> THEN wk' = [wk EXCEPT ![i] = Idle] /\ UNCHANGED chan
               ELSE /\ wk' = [wk EXCEPT ![i].out = Tail(@)]
                    /\ chan' = IF Head(wk[i].out)[1] > Thr /\ Pass(Head(wk[i].out)[1], pub)
                               THEN Append(chan, Head(wk[i].out)) ELSE chan
            /\ UNCHANGED <<H, cells, next, top, pub, pass, pc, result>>
Recv == /\ pc = "run" /\ chan # <<>>
        /\ LET t == InsertTopK(top, K, Head(chan)[2], Head(chan)[1]) IN top' = t /\ pub' = t.min
        /\ chan' = Tail(chan) /\ UNCHANGED <<H, cells, next, wk, pass, pc, result>>
AllDone == next > NF /\ \A i \in 1..W : wk[i].pc = "idle"
Second == /\ pc = "run" /\ Mode = "botk" /\ pass = 1 /\ AllDone
          /\ pass' = 2 /\ next' = 1 /\ UNCHANGED <<H, cells, wk, chan, top, pub, pc, result>>
Finish == /\ pc = "run" /\ AllDone /\ chan = <<>> /\ (Mode = "botk" => pass = 2)
          /\ pc' = "end"
          /\ result' = IF Mode = "unique" THEN Cardinality({c \in Cells : cells[c] > 0}) ELSE top.e
          /\ UNCHANGED <<H, cells, next, wk, chan, top, pub, pass>>
Next == (\E i \in 1..W : Take(i) \/ Cell1(i) \/ Cell2(i) \/ Filter(i) \/ Drain(i)) \/ Recv \/ Second \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
(* What the result is determined to be *)
Stream == FlattenSeq(Files)
AddBoth(cs, g) == LET c1 == [cs EXCEPT ![H[g][1]] = Up(@)] IN [c1 EXCEPT ![H[g][2]] = Up(@)]
FinalCells == FoldLeft(AddBoth, [c \in Cells |-> 0], Stream)
\* <<cells, {<<highest estimate returned, n-gram>>}>>
Track(a, g) == LET cs == AddBoth(a[1], g)
                   e == Est(cs, g)
               IN  <<cs, IF e > Thr THEN Better(a[2], g, e) ELSE a[2]>>
BestTopk == FoldLeft(Track, <<[c \in Cells |-> 0], {}>>, Stream)[2]
BestBotk == {<<Inv(FinalCells, g), g>> : g \in {Stream[i] : i \in 1..Len(Stream)}}
Expected == CASE Mode = "unique" -> Cardinality({c \in Cells : FinalCells[c] > 0})
              [] Mode = "topk" -> Largest(BestTopk, K)
              [] Mode = "botk" -> Largest({p \in BestBotk : p[1] > Thr}, K)
Reproducible == pc = "end" => result = Expected
Ends == <>(pc = "end")
=============================================================================
