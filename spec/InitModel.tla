------------------------------ MODULE InitModel -----------------------------
(***************************************************************************)
(* Building a Latin hypercube coordinate by coordinate from permutations,  *)
(* exhaustively; every result satisfies the predicate, and a population    *)
(* with two members in one interval does not.                              *)
(***************************************************************************)
EXTENDS InitPop, TLC
CONSTANTS Pop, Dim
VARIABLES cols, done
vars == <<cols, done>>
Perms == {p \in [1..Pop -> 0..(Pop - 1)] : \A a, b \in 1..Pop : a # b => p[a] # p[b]}
Init == cols = <<>> /\ done = FALSE
Add == Len(cols) < Dim /\ \E p \in Perms : cols' = Append(cols, p) /\ UNCHANGED done
Next == Add
Spec == Init /\ [][Next]_vars
Strata == [i \in 1..Pop |-> [j \in 1..Dim |-> {cols[j][i]}]]
Full == Len(cols) = Dim
Holds == Full => LatinHypercube(Strata, Pop)
\* moving one member to another member's interval breaks it
Sensitive == (Full /\ Pop > 1) => ~LatinHypercube([Strata EXCEPT ![1][1] = Strata[2][1]], Pop)
=============================================================================
