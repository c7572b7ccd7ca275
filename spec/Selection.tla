----------------------------- MODULE Selection ------------------------------
(* C16: which files and lines a run processes. Names are sequences of        *)
(* character codes. A tree is a sequence of entries                          *)
(*   [dir |-> <<names of the directories it lies in>>, name |-> name,        *)
(*    isdir |-> 0/1, lines |-> number of lines]                              *)
(* and an argument is [isdir |-> 1, dir |-> <<names>>] or [isdir |-> 0,       *)
(* file |-> index of the entry].                                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

SJson == <<46, 106, 115, 111, 110>>   \* ".json"
SGz == <<46, 103, 122>>               \* ".gz"

\* *.json*.gz
NameMatches(s) ==
    /\ Len(s) >= Len(SJson) + Len(SGz)
    /\ SubSeq(s, Len(s) - Len(SGz) + 1, Len(s)) = SGz
    /\ \E i \in 1..(Len(s) - Len(SGz) - Len(SJson) + 1) : SubSeq(s, i, i + Len(SJson) - 1) = SJson

Below(dir, top) == IsPrefix(top, dir)

\* The files that an argument stands for
Group(tree, arg) ==
    IF arg.isdir = 0 THEN {arg.file}
    ELSE {i \in 1..Len(tree) : tree[i].isdir = 0 /\ Below(tree[i].dir, arg.dir) /\ NameMatches(tree[i].name)}

EmptyDir(tree, args) == \E i \in 1..Len(args) : Group(tree, args[i]) = {}

RECURSIVE Before(_, _, _)
Before(tree, args, i) == IF i = 1 THEN 0 ELSE Cardinality(Group(tree, args[i - 1])) + Before(tree, args, i - 1)

\* How many of the files of argument i are processed
Share(tree, args, flimit, i) ==
    LET n == Cardinality(Group(tree, args[i]))
        left == flimit - Before(tree, args, i)
    IN  IF flimit < 0 THEN n ELSE IF left <= 0 THEN 0 ELSE IF left < n THEN left ELSE n

\* The files of a directory are taken in alphabetical order, component by component.
RECURSIVE LessCodes(_, _)
LessCodes(s, t) ==
    IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
    ELSE IF Head(s) # Head(t) THEN Head(s) < Head(t) ELSE LessCodes(Tail(s), Tail(t))
RECURSIVE LessPath(_, _)
LessPath(s, t) ==
    IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
    ELSE IF Head(s) # Head(t) THEN LessCodes(Head(s), Head(t)) ELSE LessPath(Tail(s), Tail(t))
PathOf(e) == Append(e.dir, e.name)
Earlier(tree, S, i) == Cardinality({j \in S : LessPath(PathOf(tree[j]), PathOf(tree[i]))})
FirstFiles(tree, S, n) == {i \in S : Earlier(tree, S, i) < n}

\* The files chosen for each argument
Selection(tree, args, flimit) ==
    [i \in 1..Len(args) |-> FirstFiles(tree, Group(tree, args[i]), Share(tree, args, flimit, i))]

LinesOf(e, limit) == IF limit < 0 \/ limit >= e.lines THEN e.lines ELSE limit

\* sel: a choice per argument; how often line l of file f is processed
Times(tree, sel, limit, f, l) ==
    IF l > LinesOf(tree[f], limit) THEN 0 ELSE Cardinality({i \in 1..Len(sel) : f \in sel[i]})

\* What each kind of observation says about a selection. times[f][l]: how often the line was processed.
Seen(tree, sel, limit, obs) ==
    LET T == [f \in 1..Len(tree) |-> [l \in 1..tree[f].lines |-> Times(tree, sel, limit, f, l)]]
        Pairs == UNION {{<<f, l>> : l \in 1..tree[f].lines} : f \in 1..Len(tree)}
    IN  CASE obs.kind = "times" -> obs.times = T
          [] obs.kind = "total" -> obs.total = FoldSet(LAMBDA p, a : a + T[p[1]][p[2]], 0, Pairs)
          [] obs.kind = "distinct" -> obs.distinct = Cardinality({p \in Pairs : T[p[1]][p[2]] > 0})

SelectionAllowed(c) ==
    IF EmptyDir(c.tree, c.args) THEN c.status # 0
    ELSE /\ c.status = 0
         /\ Seen(c.tree, Selection(c.tree, c.args, c.flimit), c.limit, c.obs)
=============================================================================
