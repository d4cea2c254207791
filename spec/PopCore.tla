------------------------------- MODULE PopCore -------------------------------
(***************************************************************************)
(* Pure operators shared by the design model of the population optimizers  *)
(* (PopOpt), the evolution strategies (EvoOpt) and the trace specification *)
(* (OptTrace).  A member is [v |-> value, id |-> evaluation number];       *)
(* values are ranks (integers), positions are named by the number of the   *)
(* objective evaluation made there.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
MaxOf(S) == CHOOSE m \in S : \A x \in S : m >= x

Vals(ms) == {ms[i].v : i \in DOMAIN ms}

\* First index of the smallest value (numpy.argmin).
ArgMin(ms) ==
  CHOOSE i \in DOMAIN ms :
    /\ \A j \in DOMAIN ms : ms[i].v <= ms[j].v
    /\ \A j \in DOMAIN ms : j < i => ms[j].v > ms[i].v

\* Deferred updating: all trials are evaluated, then compared slot by slot,
\* a tie keeps the member.
SyncSelect(slots, trials) ==
  [i \in DOMAIN slots |-> IF trials[i].v < slots[i].v THEN trials[i] ELSE slots[i]]

\* Immediate updating: slot i is compared as soon as its trial is evaluated,
\* a tie takes the trial.
AsyncAccepts(slots, i, trial) == trial.v <= slots[i].v
AsyncSelect(slots, i, trial) ==
  [slots EXCEPT ![i] = IF AsyncAccepts(slots, i, trial) THEN trial ELSE @]
AsyncBest(slots, best, i, trial) ==
  IF AsyncAccepts(slots, i, trial) /\ trial.v <= best.v THEN trial ELSE best

\* Termination rule of de, pso, cpso, na after iteration `it`.
\* near: the best solution moved by at most xtol during this iteration.
SlotStops(it, bestv, ftol, maxiter) ==
  IF it = 1 THEN maxiter <= 1 ELSE bestv <= ftol \/ it >= maxiter
SlotStatus(it, bestv, ftol, maxiter, near) ==
  IF it = 1 THEN -1
  ELSE IF bestv <= ftol THEN (IF near THEN 0 ELSE 1)
  ELSE -1
=============================================================================
