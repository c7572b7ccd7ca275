------------------------------ MODULE OutFile -------------------------------
(* C15: what -o/--out does to the file system. A behaviour is a sequence of  *)
(* runs that share a directory; each run resolves its target, looks whether  *)
(* it exists, opens it, processes its input (which may fail) and writes its  *)
(* records one by one.                                                       *)
(*                                                                            *)
(* Targets: "file" (a name with an extension), "nested" (the same below      *)
(* directories that do not exist yet), "noext" (a name without extension),   *)
(* "dir" and "dirx" (existing directories, the latter with an extension).    *)
(* A path is <<target, 0>> for the target itself and <<target, o>> for the   *)
(* file that topk and botk (cmd "gram") put below it when run with options o. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Targets, Opts, MaxRuns, Size, Old, Variant

Named == {"noext", "dir", "dirx"}
Paths == {<<t, 0>> : t \in Targets} \cup {<<t, o>> : t \in Targets \cap Named, o \in Opts}

Absent == <<-1>>
Dir == <<-2>>
IsFile(x) == x \notin {Absent, Dir}

Options == {[cmd |-> c, target |-> t, o |-> o, force |-> f, input |-> i] :
               c \in {"gram", "plain"}, t \in Targets, o \in Opts, f \in BOOLEAN, i \in {"ok", "bad"}}
\* options only matter to the name of generated files
Interesting(r) == r.o = CHOOSE o \in Opts : \A x \in Opts : o <= x \/ (r.cmd = "gram" /\ r.target \in Named)

VARIABLES fs, hist, run, pc, before, old
vars == <<fs, hist, run, pc, before, old>>

At(x) == [at |-> x, n |-> 0]
Idle == [cmd |-> "none"]
InitFs == [p \in Paths |->
    IF p[2] = 0 /\ (p[1] \in {"dir", "dirx"} \/ <<p[1], 1>> \in old) THEN Dir
    ELSE IF p \in old THEN [i \in 1..Old |-> 0] ELSE Absent]

Init == /\ old \in SUBSET ({<<"file", 0>>, <<"nested", 0>>, <<"dir", 1>>, <<"noext", 0>>, <<"noext", 1>>} \cap Paths)
        /\ ~({<<"noext", 0>>, <<"noext", 1>>} \subseteq old)
        /\ fs = InitFs
        /\ hist = <<>> /\ run = Idle /\ pc = At("idle") /\ before = fs

\* Where the records go, or <<>> if the target makes no sense
Resolve(r) ==
    LET t == <<r.target, 0>>
    IN  IF r.cmd = "gram" /\ (fs[t] = Dir \/ r.target \in Named)
        THEN IF IsFile(fs[t]) THEN <<>> ELSE <<r.target, r.o>>
        ELSE IF fs[t] = Dir THEN <<>> ELSE t

Start == /\ pc = At("idle") /\ Len(hist) < MaxRuns
         /\ \E r \in {x \in Options : Interesting(x)} : run' = r
         /\ pc' = At("open") /\ before' = fs /\ UNCHANGED <<fs, hist, old>>

End(status) ==
    /\ hist' = Append(hist, [cmd |-> run.cmd, target |-> run.target, o |-> run.o, force |-> run.force,
                             input |-> run.input, status |-> status,
                             path |-> IF Resolve(run) = <<>> THEN <<"none", 0>> ELSE Resolve(run)])
    /\ run' = Idle /\ pc' = At("idle") /\ UNCHANGED <<before, old>>

Opened == LET p == Resolve(run) IN
    IF p[2] # 0 /\ fs[<<p[1], 0>>] = Absent THEN [fs EXCEPT ![<<p[1], 0>>] = Dir] ELSE fs

Open == /\ pc = At("open")
        /\ LET p == Resolve(run) IN
           IF p = <<>> \/ (IsFile(fs[p]) /\ ~run.force /\ Variant # "nocheck")
           THEN UNCHANGED fs /\ End("fail")
           ELSE /\ fs' = [Opened EXCEPT ![p] = IF IsFile(fs[p]) /\ Variant = "notruncate" THEN fs[p] ELSE <<>>]
                /\ pc' = [at |-> "write", n |-> 0] /\ UNCHANGED <<hist, run, before, old>>

Put(s, i, v) == IF i <= Len(s) THEN [s EXCEPT ![i] = v] ELSE Append(s, v)

Write == /\ pc.at = "write"
         /\ LET p == Resolve(run) IN
            IF run.input = "bad" /\ (Variant # "early" \/ pc.n = 1)
            THEN UNCHANGED fs /\ End("fail")
            ELSE IF pc.n = Size[Len(hist) + 1]
            THEN UNCHANGED fs /\ End("ok")
            ELSE /\ fs' = [fs EXCEPT ![p] = Put(fs[p], pc.n + 1, Len(hist) + 1)]
                 /\ pc' = [at |-> "write", n |-> pc.n + 1] /\ UNCHANGED <<hist, run, before, old>>

Stop == /\ pc = At("idle") /\ Len(hist) = MaxRuns
        /\ pc' = At("end") /\ UNCHANGED <<fs, hist, run, before, old>>
        /\ PrintT(<<"HIST", ToJson([runs |-> hist, old |-> old])>>)

Next == Start \/ Open \/ Write
GenNext == Next \/ Stop
Spec == Init /\ [][Next]_vars /\ WF_vars(Open \/ Write)

-----------------------------------------------------------------------------
\* An existing file is only ever changed by a run with --force that names it.
Protected == pc.at \in {"open", "write"} =>
    \A p \in Paths : IsFile(before[p]) /\ (~run.force \/ p # Resolve(run)) => fs[p] = before[p]
\* After a successful run the file contains the records of this run and nothing else.
Exact == pc = At("idle") /\ Len(hist) > 0 /\ hist[Len(hist)].status = "ok" =>
    fs[hist[Len(hist)].path] = [i \in 1..Size[Len(hist)] |-> Len(hist)]
\* Records of an earlier successful run stay until a forced run on the same path.
Kept == pc = At("idle") =>
    \A i \in 1..Len(hist) : hist[i].status = "ok" =>
        \/ \E j \in (i + 1)..Len(hist) : hist[j].path = hist[i].path /\ hist[j].force
        \/ fs[hist[i].path] = [x \in 1..Size[i] |-> i]
\* A failed run leaves no record behind.
NoPartial == pc = At("idle") /\ Len(hist) > 0 /\ hist[Len(hist)].status = "fail" =>
    \A p \in Paths : IsFile(fs[p]) => \A x \in 1..Len(fs[p]) : fs[p][x] # Len(hist)
\* Same options, same name; a run creates at most one file.
OneFile == pc = At("idle") =>
    Cardinality({p \in Paths : IsFile(fs[p]) /\ ~IsFile(before[p])}) <= 1
Ends == (pc # At("idle")) ~> (pc = At("idle"))
=============================================================================
