------------------------------- MODULE StopRule -----------------------------
(***************************************************************************)
(* C36: the numerical reasons for which CMA-ES and VD-CMA give up, as a    *)
(* decision on logarithmic distances to the thresholds.  Q is a record:    *)
(*  ax  0.1 sigma d_i |b_ij| over 1e-10, largest j, i = generation mod n   *)
(*  co  0.2 sigma sqrt(C_jj) over 1e-10, smallest j                        *)
(*  cd  condition number of C over 1e14                                    *)
(*  up  sigma sqrt(C_jj) over 1000 sigma0, largest j                       *)
(*  tx  sigma max(|pc_j|, sqrt(C_jj)) over 1e-11 sigma0, largest j         *)
(* Only cmaes knows the axes of its distribution.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NoEffectAxis == -2
NoEffectCoord == -3
ConditionCov == -4
TolXUp == -6
TolX == -8
Order == <<NoEffectAxis, NoEffectCoord, ConditionCov, TolXUp, TolX>>
Known(alg, r) == alg = "cmaes" \/ r \notin {NoEffectAxis, ConditionCov}
Holds(alg, Q, r) ==
  /\ Known(alg, r)
  /\ CASE r = NoEffectAxis -> Q.ax < 0
       [] r = NoEffectCoord -> Q.co < 0
       [] r = ConditionCov -> Q.cd > 0
       [] r = TolXUp -> Q.up > 0
       [] OTHER -> Q.tx < 0
Reasons(alg, Q) == {r \in {Order[i] : i \in DOMAIN Order} : Holds(alg, Q, r)}
\* 0: no reason
Verdict(alg, Q) == LET S == {i \in DOMAIN Order : Holds(alg, Q, Order[i])}
                   IN IF S = {} THEN 0 ELSE Order[CHOOSE i \in S : \A j \in S : i <= j]
=============================================================================
