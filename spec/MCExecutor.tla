---------------------------- MODULE MCExecutor ------------------------------
EXTENDS Executor
L2 == <<2, 1>>
L3 == <<1, 2, 1>>
\* failures at every line, for one or for all attempts; panics
One(n) == {<<>>} \cup {<<i>> : i \in 1..n} \cup {<<-i>> : i \in 1..n} \cup {<<i, 0>> : i \in 1..n}
Many(n) == One(n) \cup {<<i, j, 0>> : i, j \in 1..n} \cup {<<0, i>> : i \in 1..n} \cup {<<i, j, i, 0>> : i, j \in 1..n}
Plan2 == <<Many(2), One(1)>>
Plan3 == <<One(1), One(2), {<<>>}>>
NoneMissing == {{}}
Some2 == {{}, {1}, {2}}
=============================================================================
