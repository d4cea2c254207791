----------------------------- MODULE GaussModel -----------------------------
(* The weights are positive and decreasing for every number of parents, the *)
(* mean of equal points is that point and lies between best and worst.      *)
EXTENDS Gauss, TLC
CONSTANTS Span
VARIABLES mu, xs
vars == <<mu, xs>>
Init == mu \in 1..12 /\ xs = <<>>
Next == /\ Len(xs) < (IF mu <= 5 THEN mu ELSE 0)
        /\ \E x \in -Span..Span : xs' = Append(xs, 100 * x) /\ UNCHANGED mu
Spec == Init /\ [][Next]_vars
Positive == \A k \in 1..mu : Raw(mu, k) > 0
Decreasing == \A k \in 2..mu : Raw(mu, k) < Raw(mu, k - 1)
Between == (Len(xs) = mu /\ mu > 0 /\ xs # <<>>) =>
  /\ \E k \in 1..mu : xs[k] <= Mean(mu, xs) + 1
  /\ \E k \in 1..mu : xs[k] >= Mean(mu, xs)
Equal == (Len(xs) = mu /\ xs # <<>> /\ \A k \in 1..mu : xs[k] = xs[1]) => Mean(mu, xs) = xs[1]
One == mu = 1 /\ Len(xs) = 1 => Mean(1, xs) = xs[1]
=============================================================================
