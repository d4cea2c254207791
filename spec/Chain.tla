-------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* The Markov chains of sample(): samples are numbered from 1, the first   *)
(* one is x0.  A value is a rank (smaller is better); 0 stands for "not    *)
(* evaluated" (an infeasible proposal under 'Reject').                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* Blocks of coordinates of mcmc: `size' consecutive ones, the last block may be shorter.
Blocks(dim, size) == (dim + size - 1) \div size
Block(k, dim, size) ==      \* block of the k-th proposal, k = 1, 2, ...
  LET b == (k - 1) % Blocks(dim, size) IN (b * size + 1)..Min(dim, (b + 1) * size)
\* max(1, int(perc * dim)) for perc = num/den
Size(num, den, dim) == Max(1, (num * dim) \div den)

\* Metropolis rule on ranks: must a proposal of value v be accepted at a current value c?
Must(v, c) == v > 0 /\ v <= c
Never(v, c) == v = 0

\* what a chain reports
Best(vals) == CHOOSE i \in DOMAIN vals : \A j \in DOMAIN vals : vals[i] <= vals[j]
Minimum(vals) == vals[Best(vals)]
=============================================================================
