-------------------------------- MODULE Bench -------------------------------
(***************************************************************************)
(* The benchmark functions on a lattice, in integers.  A point is k/8 with *)
(* k a vector of integers (griewank: x_i = k_i*(pi/4)*sqrt(i)).  cos of a  *)
(* multiple of pi/4 is a + b*sqrt(1/2) with integers a, b.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Sum(_, _)
Sum(f, n) == IF n = 0 THEN 0 ELSE f[n] + Sum(f, n - 1)
Total(k, F(_)) == Sum([i \in DOMAIN k |-> F(i)], Len(k))
\* cos(2*pi*j/8)
CosA(j) == CASE j % 8 = 0 -> 1 [] j % 8 = 4 -> -1 [] OTHER -> 0
CosB(j) == CASE j % 8 \in {1, 7} -> 1 [] j % 8 \in {3, 5} -> -1 [] OTHER -> 0

Sq(k) == Total(k, LAMBDA i : k[i] * k[i])                       \* 64 sum x^2
CA(k) == Total(k, LAMBDA i : CosA(k[i]))
CB(k) == Total(k, LAMBDA i : CosB(k[i]))
Quartic(k) == Total(k, LAMBDA i : i * k[i] * k[i] * k[i] * k[i])   \* 4096 f
RosA(k) == Sum([i \in 1..(Len(k) - 1) |-> (8 * k[i + 1] - k[i] * k[i]) * (8 * k[i + 1] - k[i] * k[i])], Len(k) - 1)   \* 4096
RosB(k) == Sum([i \in 1..(Len(k) - 1) |-> (8 - k[i]) * (8 - k[i])], Len(k) - 1)                                       \* 64
Sty(k) == Total(k, LAMBDA i : k[i] * k[i] * k[i] * k[i] - 1024 * k[i] * k[i] + 2560 * k[i])                           \* 4096 * 2
GriS(k) == Total(k, LAMBDA i : i * k[i] * k[i])                 \* times (pi/4)^2
\* the product of the cosines is Sign * sqrt(1/2)^Power
RECURSIVE GriSign(_, _)
GriSign(k, n) == IF n = 0 THEN 1 ELSE (CosA(k[n]) + CosB(k[n])) * GriSign(k, n - 1)
GriPow(k) == Cardinality({i \in DOMAIN k : CosB(k[i]) # 0})

Parts(k) == [sq |-> Sq(k), ca |-> CA(k), cb |-> CB(k), qu |-> Quartic(k), ra |-> RosA(k), rb |-> RosB(k), st |-> Sty(k),
             gs |-> GriS(k), gg |-> GriSign(k, Len(k)), gp |-> GriPow(k)]
\* 1000 * (n - sum of cosines), rounded towards zero (non-negative up to 1)
CosGap(k) == 1000 * (Len(k) - CA(k)) - 707 * CB(k)
=============================================================================
