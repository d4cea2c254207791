-------------------------------- MODULE Gauss -------------------------------
(***************************************************************************)
(* Statistics and recombination weights in integers.  Statistics are       *)
(* thousandths of their standard error, so Accept(t) is a 7 sigma test.    *)
(* Ln[k] and LnHalf[k] are ln(k) and ln(k + 1/2) in ten-thousandths.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
Accept(t) == Abs(t) <= 7000
Ln == <<0, 6931, 10986, 13863, 16094, 17918, 19459, 20794, 21972, 23026, 23979, 24849, 25649, 26391, 27081, 27726, 28332, 28904, 29444, 29957,
  30445, 30910, 31355, 31781, 32189, 32581, 32958, 33322, 33673, 34012, 34340, 34657, 34965, 35264, 35553, 35835, 36109, 36376, 36636, 36889>>
LnHalf == <<4055, 9163, 12528, 15041, 17047, 18718, 20149, 21401, 22513, 23514, 24423, 25257, 26027, 26741, 27408, 28034, 28622, 29178, 29704, 30204,
  30681, 31135, 31570, 31987, 32387, 32771, 33142, 33499, 33844, 34177, 34500, 34812, 35115, 35410, 35695, 35973, 36243, 36507, 36763, 37013>>
Raw(mu, k) == LnHalf[mu] - Ln[k]
RECURSIVE Total(_, _)
Total(mu, k) == IF k = 0 THEN 0 ELSE Raw(mu, k) + Total(mu, k - 1)
RECURSIVE Dot(_, _, _)
Dot(mu, xs, k) == IF k = 0 THEN 0 ELSE Raw(mu, k) * xs[k] + Dot(mu, xs, k - 1)
\* weighted mean of xs[1..mu] (best first)
Mean(mu, xs) == Dot(mu, xs, mu) \div Total(mu, mu)
Mu(num, den, pop) == IF (num * pop) \div den < 1 THEN 1 ELSE (num * pop) \div den
=============================================================================
