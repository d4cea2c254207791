------------------------------ MODULE DEModel -------------------------------
(***************************************************************************)
(* Differential evolution as a transition system: positions on a small     *)
(* lattice, objective |x - Target|, every lawful trial, greedy selection.  *)
(* Checked: a population on one point is a fixed point; trials stay in the *)
(* affine reach of the members; the best never gets worse (C01, C09, C10). *)
(***************************************************************************)
EXTENDS DEMove, TLC

CONSTANTS Pop, Span, Strategy, F2, Sync, Target, MaxIter

VARIABLES pos, old, best, k, it
vars == <<pos, old, best, k, it>>

Abs(a) == IF a < 0 THEN -a ELSE a
F(p) == Abs(p[1] - Target)
Lattice == {2 * a : a \in 0..Span}
Wide == -(4 * Span * (1 + F2))..(4 * Span * (1 + F2))
BestOf(ps) == CHOOSE i \in DOMAIN ps : /\ \A j \in DOMAIN ps : F(ps[i]) <= F(ps[j])
                                       /\ \A j \in DOMAIN ps : j < i => F(ps[j]) > F(ps[i])

Init == /\ pos \in [1..Pop -> {<<a>> : a \in Lattice}]
        /\ old = pos /\ best = pos[BestOf(pos)] /\ k = 0 /\ it = 1

Cands(ps, b, i) == {<<MutantAt(Strategy, F2, ps, b, d, 1)>> : d \in Distinct(1..Pop \ {i}, Donors(Strategy))}

Trial ==
  /\ k < Pop /\ it < MaxIter
  /\ \E u \in Cands(IF Sync THEN old ELSE pos, best, k + 1) :
       LET win == IF Sync THEN F(u) < F(pos[k + 1]) ELSE F(u) <= F(pos[k + 1])
       IN /\ pos' = IF win THEN [pos EXCEPT ![k + 1] = u] ELSE pos
          /\ best' = IF ~Sync /\ win /\ F(u) <= F(best) THEN u ELSE best
  /\ k' = k + 1 /\ UNCHANGED <<old, it>>
EndIter ==
  /\ k = Pop /\ k' = 0 /\ it' = it + 1 /\ old' = pos
  /\ best' = IF Sync THEN pos[BestOf(pos)] ELSE best
  /\ UNCHANGED pos
Next == Trial \/ EndIter
Spec == Init /\ [][Next]_vars

Small == \A i \in DOMAIN pos : Abs(pos[i][1]) <= 200
BestIsBest == k = 0 => \A i \in DOMAIN pos : F(best) <= F(pos[i])
BestAttained == k = 0 => \E i \in DOMAIN pos : F(pos[i]) = F(best)
NoWorse == [][\A i \in DOMAIN pos : F(pos'[i]) <= F(pos[i])]_vars
Monotone == [][F(best') <= F(best)]_vars
\* every candidate the model takes satisfies the law the trace specification uses
LawAgrees == \A u \in Cands(pos, best, 1) : Lawful(Strategy, F2, "one", pos, best, 1, u) /\ Lawful(Strategy, F2, "mid", pos, best, 1, u)
Collapsed == (\A i, j \in DOMAIN pos : pos[i] = pos[j]) /\ best = pos[1] => Cands(pos, best, 1) = {pos[1]}
=============================================================================
