------------------------------- MODULE Regex --------------------------------
(* C10: leftmost-first regular expression matches of a pattern (given by its *)
(* syntax tree) in a text (a sequence of [c |-> code point, b |-> bytes,     *)
(* w |-> 1 if it is a word character]), with byte offsets.                   *)
EXTENDS Corpus, TLC

\* Later duplicates never matter: what follows is decided by the position alone.
Distinct(s) == FoldLeft(LAMBDA a, j : IF Contains(a, j) THEN a ELSE Append(a, j), <<>>, s)
IsWord(t, i) == i >= 1 /\ i <= Len(t) /\ t[i].w = 1

\* The positions at which a match of e that starts before position i can end, most preferred first.
RECURSIVE Ends(_, _, _), Star(_, _, _, _, _), EndsCat(_, _, _, _), EndsAlt(_, _, _, _)
Ends(e, t, i) ==
    CASE e.op = "c" -> IF i <= Len(t) /\ t[i].c = e.c THEN <<i + 1>> ELSE <<>>
      [] e.op = "any" -> IF i <= Len(t) /\ t[i].c # 10 THEN <<i + 1>> ELSE <<>>
      [] e.op = "set" -> IF i <= Len(t) /\ (t[i].c \in Range(e.cs)) = (e.neg = 0) THEN <<i + 1>> ELSE <<>>
      [] e.op = "word" -> IF i <= Len(t) /\ t[i].w = 1 THEN <<i + 1>> ELSE <<>>
      [] e.op = "bol" -> IF i = 1 THEN <<i>> ELSE <<>>
      [] e.op = "eol" -> IF i = Len(t) + 1 THEN <<i>> ELSE <<>>
      [] e.op = "wb" -> IF IsWord(t, i - 1) # IsWord(t, i) THEN <<i>> ELSE <<>>
      [] e.op = "cat" -> EndsCat(e.xs, 1, t, i)
      [] e.op = "alt" -> EndsAlt(e.xs, 1, t, i)
      [] e.op = "opt" -> IF e.greedy = 1 THEN Ends(e.x, t, i) \o <<i>> ELSE <<i>> \o Ends(e.x, t, i)
      [] e.op = "star" -> Star(e.x, e.greedy, t, i, {})[1]
      [] e.op = "plus" ->
            FoldLeft(LAMBDA acc, j : IF j \in acc[2] THEN acc
                                     ELSE LET r == Star(e.x, e.greedy, t, j, acc[2]) IN <<acc[1] \o r[1], r[2]>>,
                     <<<<>>, {}>>, Ends(e.x, t, i))[1]
\* Repetitions: explored depth first; a position that has been reached before leads nowhere new.
\* Returns the ends and the positions visited.
Star(x, greedy, t, i, seen) ==
    LET sub == FoldLeft(LAMBDA acc, j : IF j <= i \/ j \in acc[2] THEN acc
                                        ELSE LET r == Star(x, greedy, t, j, acc[2]) IN <<acc[1] \o r[1], r[2]>>,
                        <<<<>>, seen \cup {i}>>, Ends(x, t, i))
    IN  IF greedy = 1 THEN <<Append(sub[1], i), sub[2]>> ELSE <<<<i>> \o sub[1], sub[2]>>
EndsCat(xs, n, t, i) ==
    IF n > Len(xs) THEN <<i>>
    ELSE LET f == Ends(xs[n], t, i)
         IN  IF n = Len(xs) THEN f ELSE Distinct(FlattenSeq([k \in 1..Len(f) |-> EndsCat(xs, n + 1, t, f[k])]))
EndsAlt(xs, n, t, i) == IF n > Len(xs) THEN <<>> ELSE Ends(xs[n], t, i) \o EndsAlt(xs, n + 1, t, i)

\* Successive non-overlapping matches as <<start, end>> (positions); an empty match directly behind the
\* previous match does not count.
ScanFrom(e, t) ==
    FoldLeft(LAMBDA acc, i :
                 IF i < acc.from THEN acc
                 ELSE LET f == Ends(e, t, i)
                      IN  IF f = <<>> \/ (f[1] = i /\ i = acc.last) THEN acc
                          ELSE [m |-> Append(acc.m, <<i, f[1]>>), from |-> Max2(f[1], i + 1), last |-> f[1]],
             [m |-> <<>>, from |-> 1, last |-> 0], [i \in 1..(Len(t) + 1) |-> i])
Scan(e, t) == ScanFrom(e, t).m

\* the bytes before each character (and after the last one)
BytesBefore(t) == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + x.b), <<0>>, t)
Matches(e, t) ==
    LET m == Scan(e, t)
        at == TLCEval(IF m = <<>> THEN <<>> ELSE BytesBefore(t))
    IN  [k \in 1..Len(m) |-> <<at[m[k][1]], at[m[k][2]]>>]

\* files[f][l] = [has, t]; listing with repetitions; out = sequence (one per pattern) of
\* [count, locs |-> <<[f, l, ok, m |-> <<byte ranges>>]>>]
SearchAllowed(files, listing, flimit, limit, patterns, withlocs, loclimit, out) ==
    LET jobs == Take(listing, flimit)
        Times(f) == Cardinality({j \in 1..Len(jobs) : jobs[j] = f})
        Used == Range(jobs)
        NL(f) == Len(Take(files[f], limit))
        Has(f, l) == files[f][l].has = 1
    IN  /\ Len(out) = Len(patterns)
        /\ \A p \in 1..Len(patterns) :
             LET M == TLCEval([f \in Used |-> [l \in 1..NL(f) |-> IF Has(f, l) THEN Matches(patterns[p], files[f][l].t) ELSE <<>>]])
                 total == SumOver(Used, LAMBDA f : Times(f) * SumOver(1..NL(f), LAMBDA l : Len(M[f][l])))
                 locs == out[p].locs
                 kept == SumOver(1..Len(locs), LAMBDA x : Len(locs[x].m))
                 At(f, l) == {x \in 1..Len(locs) : locs[x].f = f /\ locs[x].l = l}
             IN  /\ out[p].count = total
                 /\ IF withlocs = 0 THEN locs = <<>>
                    ELSE /\ kept = IF loclimit >= 0 THEN Min2(loclimit, total) ELSE total
                         /\ \A x \in 1..Len(locs) :
                               /\ locs[x].ok = 1
                               /\ locs[x].f \in Used
                               /\ locs[x].l \in 1..NL(locs[x].f)
                               /\ locs[x].m # <<>>
                               /\ LET mm == locs[x].m  ref == M[locs[x].f][locs[x].l]
                                  IN  /\ Range(mm) \subseteq Range(ref)
                                      /\ \A k \in 1..(Len(mm) - 1) : mm[k][1] <= mm[k + 1][1] /\ mm[k] # mm[k + 1]
                         /\ \A x \in 1..Len(locs) : Cardinality(At(locs[x].f, locs[x].l)) <= Times(locs[x].f)

\* What is printed for people: per line of a file the number of matches only (m).
SearchLinesAllowed(files, listing, flimit, limit, patterns, withlocs, loclimit, out) ==
    LET jobs == Take(listing, flimit)
        Times(f) == Cardinality({j \in 1..Len(jobs) : jobs[j] = f})
        Used == Range(jobs)
        NL(f) == Len(Take(files[f], limit))
        Has(f, l) == files[f][l].has = 1
    IN  /\ Len(out) = Len(patterns)
        /\ \A p \in 1..Len(patterns) :
             LET M == TLCEval([f \in Used |-> [l \in 1..NL(f) |-> IF Has(f, l) THEN Len(Matches(patterns[p], files[f][l].t)) ELSE 0]])
                 total == SumOver(Used, LAMBDA f : Times(f) * SumOver(1..NL(f), LAMBDA l : M[f][l]))
                 locs == out[p].locs
                 kept == SumOver(1..Len(locs), LAMBDA x : locs[x].m)
                 At(f, l) == {x \in 1..Len(locs) : locs[x].f = f /\ locs[x].l = l}
             IN  /\ out[p].count = total
                 /\ IF withlocs = 0 THEN locs = <<>>
                    ELSE /\ kept = IF loclimit >= 0 THEN Min2(loclimit, total) ELSE total
                         /\ \A x \in 1..Len(locs) :
                               /\ locs[x].ok = 1
                               /\ locs[x].f \in Used
                               /\ locs[x].l \in 1..NL(locs[x].f)
                               /\ locs[x].m \in 1..M[locs[x].f][locs[x].l]
                               /\ Cardinality(At(locs[x].f, locs[x].l)) <= Times(locs[x].f)
=============================================================================
