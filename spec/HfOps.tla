------------------------------- MODULE HfOps --------------------------------
(* C28: what may be found in the output directory. sizes: examples of every  *)
(* split, b: size of the batches; obs: after every run [status |-> exit      *)
(* status, faulty |-> 1 if it was interrupted or its writes failed, files |->*)
(* sequence of <<split, number, examples>>]                                  *)
EXTENDS Integers, Sequences, FiniteSets

HfBatch(n, b, k) == LET m == n - k * b IN [i \in 1..(IF m > b THEN b ELSE IF m < 0 THEN 0 ELSE m) |-> k * b + i]
HfBatches(n, b) == (n + b - 1) \div b

HfAllowed(c) ==
    \A o \in 1..Len(c.obs) :
        LET x == c.obs[o]
            named == {<<x.files[i][1], x.files[i][2]>> : i \in 1..Len(x.files)}
        IN  /\ Cardinality(named) = Len(x.files)
            /\ \A i \in 1..Len(x.files) :
                LET f == x.files[i]
                IN  /\ f[1] \in 1..Len(c.sizes)
                    /\ f[2] < HfBatches(c.sizes[f[1]], c.b)
                    /\ f[3] = HfBatch(c.sizes[f[1]], c.b, f[2])
            /\ x.faulty = 0 => x.status = 0
            /\ x.status = 0 => \A s \in 1..Len(c.sizes) : \A k \in 0..(HfBatches(c.sizes[s], c.b) - 1) : <<s, k>> \in named
            \* what was finished stays finished
            /\ o > 1 => {<<c.obs[o - 1].files[i][1], c.obs[o - 1].files[i][2]>> : i \in 1..Len(c.obs[o - 1].files)} \subseteq named
=============================================================================
