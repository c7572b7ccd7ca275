---------------------------- MODULE MCSelection -----------------------------
(* The way the code selects its lines, step by step: expand each argument,   *)
(* cut the list of files, read every file until its limit; for all small     *)
(* trees, argument lists and limits, the lines processed are those that the  *)
(* definition in Selection allows.                                           *)
EXTENDS Selection, TLC

CONSTANTS MaxArgs, Variant

N(ext) == <<120>> \o ext
Good == N(SJson \o SGz)
Bad1 == N(SGz)
Bad2 == SJson \o N(SGz) \o <<120>>
D1 == <<100>>
D2 == <<101>>
E(dir, name, isdir, lines) == [dir |-> dir, name |-> name, isdir |-> isdir, lines |-> lines]

Pool == {E(<<D1>>, Good, 0, 2), E(<<D1>>, SJson \o SGz, 0, 1), E(<<D1>>, Bad1, 0, 1), E(<<D1>>, Bad2, 0, 1),
         E(<<D1, D2>>, N(SJson \o <<45>> \o SGz), 0, 1), E(<<D1>>, N(SJson \o SJson \o SGz), 1, 0),
         E(<<D2>>, Good, 0, 3), E(<<>>, Good, 0, 1)}
Trees == {SetToSeq(S) : S \in {X \in SUBSET Pool : Cardinality(X) \in 1..4}}
ArgsOf(tree) == {[isdir |-> 1, dir |-> d, file |-> 0] : d \in {<<D1>>, <<D2>>, <<D1, D2>>}}
                \cup {[isdir |-> 0, dir |-> <<>>, file |-> i] : i \in {x \in 1..Len(tree) : tree[x].isdir = 0}}

VARIABLES tree, args, flimit, limit, pc, todo, files, line, times, status
vars == <<tree, args, flimit, limit, pc, todo, files, line, times, status>>

Init == /\ tree \in Trees
        /\ args \in UNION {[1..n -> ArgsOf(tree)] : n \in 1..MaxArgs}
        /\ flimit \in {-1, 0, 1, 2} /\ limit \in {-1, 0, 1, 2}
        /\ pc = "expand" /\ todo = args /\ files = <<>> /\ line = 0 /\ status = 0
        /\ times = [f \in 1..Len(tree) |-> [l \in 1..tree[f].lines |-> 0]]

Fail == pc' = "end" /\ status' = 1 /\ UNCHANGED <<tree, args, flimit, limit, todo, files, line, times>>

Expand == /\ pc = "expand" /\ todo # <<>>
          /\ LET g == Group(tree, Head(todo)) IN
             IF g = {} /\ Variant # "emptyok" THEN Fail
             ELSE \E o \in (IF Variant = "anyorder" THEN SetToSeqs(g) ELSE {SetToSortSeq(g, LAMBDA x, y : LessPath(PathOf(tree[x]), PathOf(tree[y])))}) :
                  /\ files' = files \o (IF Variant = "dedup" THEN SelectSeq(o, LAMBDA x : x \notin Range(files)) ELSE o)
                  /\ todo' = Tail(todo)
                  /\ UNCHANGED <<tree, args, flimit, limit, pc, line, times, status>>
Cut == /\ pc = "expand" /\ todo = <<>>
       /\ files' = IF flimit >= 0 /\ flimit < Len(files) THEN SubSeq(files, 1, flimit) ELSE files
       /\ pc' = "read" /\ line' = 0
       /\ UNCHANGED <<tree, args, flimit, limit, todo, times, status>>
Read == /\ pc = "read" /\ files # <<>>
        /\ LET f == Head(files)
               stop == line = tree[f].lines \/ (limit >= 0 /\ line >= limit + (IF Variant = "offbyone" THEN 1 ELSE 0))
           IN  IF stop THEN /\ files' = Tail(files)
                            /\ line' = IF Variant = "sharedlimit" /\ limit >= 0 THEN line ELSE 0
                            /\ UNCHANGED times
               ELSE /\ times' = [times EXCEPT ![f][line + 1] = @ + 1]
                    /\ line' = line + 1 /\ UNCHANGED files
        /\ UNCHANGED <<tree, args, flimit, limit, pc, todo, status>>
Done == /\ pc = "read" /\ files = <<>> /\ pc' = "end"
        /\ UNCHANGED <<tree, args, flimit, limit, todo, files, line, times, status>>
Next == Expand \/ Cut \/ Read \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Selected == pc = "end" =>
    SelectionAllowed([tree |-> tree, args |-> args, flimit |-> flimit, limit |-> limit, status |-> status,
                      obs |-> [kind |-> "times", times |-> times]])
Ends == <>(pc = "end")
=============================================================================
