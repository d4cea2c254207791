----------------------------- MODULE Metropolis -----------------------------
(***************************************************************************)
(* Why the acceptance rule of C22/C23 is the right one: on a finite space  *)
(* with energies f(s) (in units of ln 2) and symmetric proposals, the rule *)
(* "always if not worse, else with probability 2^-(increase)" is in        *)
(* detailed balance with weights 2^-f.  All quantities are integers after  *)
(* multiplication by 2^(2*F).  Enumerates every energy table.              *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS States, F, Rule          \* energies 0..F; Rule: "metropolis" or a broken one
VARIABLES f
Pow2(n) == IF n <= 0 THEN 1 ELSE 2 ^ n
W(s) == Pow2(F - f[s])                              \* weight times 2^F
Acc(s, t) ==                                        \* probability times 2^F
  CASE Rule = "metropolis" -> IF f[t] <= f[s] THEN Pow2(F) ELSE Pow2(F - (f[t] - f[s]))
    [] Rule = "greedy" -> IF f[t] <= f[s] THEN Pow2(F) ELSE 0
    [] Rule = "swapped" -> IF f[t] >= f[s] THEN Pow2(F) ELSE Pow2(F - (f[s] - f[t]))
    [] Rule = "half" -> IF f[t] <= f[s] THEN Pow2(F) ELSE Pow2(F - 2 * (f[t] - f[s]))
Init == f \in [States -> 0..F]
Next == UNCHANGED f
Spec == Init /\ [][Next]_f
Balance == \A s, t \in States : W(s) * Acc(s, t) = W(t) * Acc(t, s)
Flow(s) == W(s) # 0
\* every state can be reached (no rule that freezes)
Alive == \A s, t \in States : Acc(s, t) > 0
=============================================================================
