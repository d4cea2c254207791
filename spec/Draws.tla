-------------------------------- MODULE Draws -------------------------------
(***************************************************************************)
(* Exact weights of the outcomes of the random choices.  A kind of choice  *)
(* is a record [k, ...]; Cells(q) is the number of outcomes, Weight(q, c)  *)
(* the weight of outcome c (1, 2, ...); the probability is the weight      *)
(* divided by the sum of all weights.                                      *)
(*  fair   n outcomes of equal weight                                      *)
(*  cross  which of n coordinates come from the mutant, CR = a/b: one      *)
(*         coordinate drawn uniformly always does, every other one does    *)
(*         with probability a/b; outcome c is the subset with number c in  *)
(*         binary                                                          *)
(*  one    the same for a single coordinate: 1 target, 2 mutant            *)
(*  two    the same for two coordinates of a trial: 1 + 2 x + y            *)
(*  apart  one coordinate each of two trials: 1 + 2 x + y                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Pow(_, _)
Pow(x, n) == IF n = 0 THEN 1 ELSE x * Pow(x, n - 1)
RECURSIVE Bits(_)
Bits(c) == IF c = 0 THEN 0 ELSE (c % 2) + Bits(c \div 2)
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)

Cells(q) == CASE q.k = "fair" -> q.n [] q.k = "cross" -> Pow(2, q.n) - 1 [] q.k = "one" -> 2 [] OTHER -> 4
One(q, x) == IF x = 0 THEN (q.n - 1) * (q.b - q.a) ELSE q.b + (q.n - 1) * q.a
Weight(q, c) ==
  IF q.k = "fair" THEN 1
  ELSE IF q.k = "one" THEN One(q, c - 1)
  ELSE IF q.k = "apart" THEN One(q, (c - 1) \div 2) * One(q, (c - 1) % 2)
  ELSE IF q.k = "two" THEN
    IF c = 1 THEN (q.n - 2) * (q.b - q.a) * (q.b - q.a)
    ELSE IF c = 4 THEN 2 * q.a * q.b + (q.n - 2) * q.a * q.a
    ELSE q.b * (q.b - q.a) + (q.n - 2) * q.a * (q.b - q.a)
  ELSE LET s == Bits(c) IN s * Pow(q.a, s - 1) * Pow(q.b - q.a, q.n - s)
Total(q) == SumTo([c \in 1..Cells(q) |-> Weight(q, c)], Cells(q))
\* ordered choices of k out of n
RECURSIVE Falling(_, _)
Falling(n, k) == IF k = 0 THEN 1 ELSE n * Falling(n - 1, k - 1)
=============================================================================
