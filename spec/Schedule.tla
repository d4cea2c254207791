------------------------------ MODULE Schedule ------------------------------
(***************************************************************************)
(* When a competitive swarm restarts, and how many particles (C39).        *)
(*   After iteration k of M (2 <= k < M) a swarm that is inside the        *)
(*   collapse radius around its best repositions                           *)
(*        floor((P - 1) / (1 + E)),   E = exp(Z / 0.09),                   *)
(*        Z = k / M - competitivity + 1 / 2                                *)
(*   of its P particles, any other swarm none.                             *)
(* Z is exact here: ZNum / (100 M), competitivity in hundredths.  E comes  *)
(* in units of 1/SC, capped (a capped E leaves nobody to reposition).      *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

SC == 10000
ZNum(k, m, g) == 100 * k - g * m + 50 * m
Number(p, e) == ((p - 1) * SC) \div (SC + e)
\* E is known between lo and hi (rounding only).
Numbers(p, lo, hi) == Number(p, hi)..Number(p, lo)
MayRestart(k, m) == k >= 2 /\ k < m
\* collapsed: "y", "n" or "m" (on the radius up to rounding)
Allowed(k, m, p, lo, hi, collapsed) ==
  IF ~MayRestart(k, m) \/ collapsed = "n" THEN {0}
  ELSE Numbers(p, lo, hi) \union (IF collapsed = "m" THEN {0} ELSE {})
=============================================================================
