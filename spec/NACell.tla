------------------------------- MODULE NACell -------------------------------
(***************************************************************************)
(* Neighbourhood algorithm: new model i (counted from 0) of an iteration   *)
(* belongs to the Voronoi cell of the model of rank i mod nr among all     *)
(* earlier models, nr = max(1, int(nrperc * popsize)).                     *)
(* vals: sequence of the values of the earlier models.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Below(vals, m) == Cardinality({q \in DOMAIN vals : vals[q] < vals[m]})
UpTo(vals, m)  == Cardinality({q \in DOMAIN vals : vals[q] <= vals[m]})
\* m can be the model of rank r (0-based; ties in any order)
HasRank(vals, m, r) == Below(vals, m) <= r /\ r < UpTo(vals, m)
\* owners: the earlier models whose cell contains the new model (several on a common wall)
Lawful(vals, owners, i, nr) == \E m \in owners : HasRank(vals, m, i % nr)
=============================================================================
