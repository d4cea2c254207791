------------------------------- MODULE InitPop ------------------------------
(***************************************************************************)
(* Initial populations.  LatinHypercube(strata, pop): strata[i][j] is the  *)
(* set of intervals (0..pop-1) of coordinate j that member i may be in     *)
(* (two of them only within rounding of a border).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Covers(strata, j, pop) ==
  /\ \A s \in 0..(pop - 1) : \E i \in DOMAIN strata : s \in strata[i][j]
  /\ \A s \in 0..(pop - 1) : Cardinality({i \in DOMAIN strata : strata[i][j] = {s}}) <= 1
LatinHypercube(strata, pop) ==
  /\ Len(strata) = pop
  /\ \A j \in DOMAIN strata[1] : Covers(strata, j, pop)
=============================================================================
