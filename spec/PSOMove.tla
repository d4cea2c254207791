------------------------------- MODULE PSOMove ------------------------------
(***************************************************************************)
(* The particle-swarm step law in interval arithmetic on integers.         *)
(* Weights are in hundredths.  For a coordinate with previous step v, way  *)
(* to the own best a and way to the swarm's best b, 100 times the step     *)
(* lies in [Lo, Hi].                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences

Lo(w, c1, c2, v, a, b) == w * v + (IF a < 0 THEN c1 * a ELSE 0) + (IF b < 0 THEN c2 * b ELSE 0)
Hi(w, c1, c2, v, a, b) == w * v + (IF a > 0 THEN c1 * a ELSE 0) + (IF b > 0 THEN c2 * b ELSE 0)

\* e: slack in units of 1/100 lattice step
Within(s, lo, hi, e) == 100 * s >= lo - e /\ 100 * s <= hi + e
=============================================================================
