------------------------------- MODULE DEMove -------------------------------
(***************************************************************************)
(* How a differential-evolution trial is built, on an integer lattice.     *)
(* Positions are sequences of integers; the mutation factor is F2/2.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Donors(strategy) == CASE strategy = "rand1bin" -> 3 [] strategy = "rand2bin" -> 5
                      [] strategy = "best1bin" -> 2 [] strategy = "best2bin" -> 4

\* All sequences of k distinct members of S, built step by step.
RECURSIVE Distinct(_, _)
Distinct(S, k) ==
  IF k = 0 THEN {<<>>}
  ELSE UNION {{<<s>> \o q : q \in Distinct(S \ {s}, k - 1)} : s \in S}

\* Coordinate j of the mutant, from members pos (function of slots) and donors d.
\* F2 is twice the mutation factor, all positions are even.
MutantAt(strategy, F2, pos, best, d, j) ==
  CASE strategy = "rand1bin" -> pos[d[1]][j] + (F2 * (pos[d[2]][j] - pos[d[3]][j])) \div 2
    [] strategy = "rand2bin" -> pos[d[1]][j] + (F2 * (pos[d[2]][j] + pos[d[3]][j] - pos[d[4]][j] - pos[d[5]][j])) \div 2
    [] strategy = "best1bin" -> best[j] + (F2 * (pos[d[1]][j] - pos[d[2]][j])) \div 2
    [] strategy = "best2bin" -> best[j] + (F2 * (pos[d[1]][j] + pos[d[2]][j] - pos[d[3]][j] - pos[d[4]][j])) \div 2

\* u is a lawful trial of member i.  cr is "zero", "one" or "mid".
Lawful(strategy, F2, cr, pos, best, i, u) ==
  \E d \in Distinct(DOMAIN pos \ {i}, Donors(strategy)) :
    LET mut(j) == u[j] = MutantAt(strategy, F2, pos, best, d, j)
        own(j) == u[j] = pos[i][j]
    IN /\ \A j \in DOMAIN u : mut(j) \/ own(j)
       /\ \E j \in DOMAIN u : mut(j)
       /\ cr = "one" => \A j \in DOMAIN u : mut(j)
       /\ cr = "zero" => \E j \in DOMAIN u : mut(j) /\ \A k \in DOMAIN u \ {j} : own(k)
=============================================================================
