------------------------------- MODULE Restart ------------------------------
(***************************************************************************)
(* Competitive restarts over a swarm that does not move (no sociability):  *)
(* particle i keeps its place until it is repositioned.  A member is       *)
(* [v, id]; a forgotten personal best has value INF.                       *)
(***************************************************************************)
EXTENDS PopCore

INF == 2000000000
\* The n members with the worst personal bests (ties may be cut anywhere).
IsWorst(S, ms) == \A i \in S, j \in DOMAIN ms \ S : ms[i].v >= ms[j].v
Forget(S, ms) == [i \in DOMAIN ms |-> IF i \in S THEN [v |-> INF, id |-> 0] ELSE ms[i]]
=============================================================================
