-------------------------------- MODULE PopOpt --------------------------------
(***************************************************************************)
(* Design model of the population optimizers de, pso, cpso and na.         *)
(*                                                                         *)
(* Environment: the objective, which may return any value of Levels at     *)
(* every call.  One action per step of the implementation:                 *)
(*   EvalInit    the initial population is evaluated member by member      *)
(*   BeginRun    personal/global bests, first row of the history, callback *)
(*   EvalTrial   one trial evaluated (and, when immediate, selected)       *)
(*   EndIter     deferred selection, termination test, history, callback   *)
(*   Restart     competitive restart of the k worst particles (cpso)       *)
(***************************************************************************)
EXTENDS PopCore, TLC, Json

CONSTANTS Alg,      \* "de" | "pso" | "cpso" | "na"
          Sync,     \* deferred updating
          Pop, MaxIter,
          Levels,   \* set of values the objective may return
          Ftol,     \* level of the tolerance
          XtolHuge, \* TRUE: every move is within xtol; FALSE: only no move is
          Emit      \* print every complete behaviour as JSON

VARIABLES slots,   \* personal bests (de: the population)
          best,    \* best solution so far
          trials,  \* trials evaluated in this iteration
          n,       \* number of evaluations
          it, status, phase,
          minv,    \* ghost: smallest value returned so far
          minids,  \* ghost: evaluations that returned it
          prevbest,
          log      \* ghost: what the callback has seen

vars == <<slots, best, trials, n, it, status, phase, minv, minids, prevbest, log>>

Inf == 1000          \* value of a forgotten personal best
NoId == 0

ToSeq(f) == [i \in 1..Pop |-> f[i]]

\* Population shown to the user: de shows the members, the others the trials.
Shown(sl, tr) == IF Alg = "de" THEN sl ELSE tr

Entry(b, sl, tr, k, ev, st) ==
  [nit |-> k, nfev |-> ev, fun |-> b.v, x |-> b.id, status |-> st,
   ids |-> [i \in 1..Pop |-> Shown(sl, tr)[i].id],
   vals |-> [i \in 1..Pop |-> Shown(sl, tr)[i].v],
   raw |-> [i \in 1..Pop |-> tr[i].v]]

Init ==
  /\ slots = <<>> /\ trials = <<>> /\ best = [v |-> Inf, id |-> NoId]
  /\ n = 0 /\ it = 0 /\ status = 9 /\ phase = "init"
  /\ minv = Inf /\ minids = {} /\ prevbest = best /\ log = <<>>

Observe(v) ==
  /\ n' = n + 1
  /\ minv' = IF v < minv THEN v ELSE minv
  /\ minids' = IF v < minv THEN {n + 1} ELSE IF v = minv THEN minids \union {n + 1} ELSE minids

EvalInit(v) ==
  /\ phase = "init" /\ Len(trials) < Pop
  /\ Observe(v)
  /\ trials' = Append(trials, [v |-> v, id |-> n + 1])
  /\ UNCHANGED <<slots, best, it, status, phase, prevbest, log>>

BeginRun ==
  /\ phase = "init" /\ Len(trials) = Pop
  /\ slots' = trials
  /\ best' = trials[ArgMin(trials)]
  /\ it' = 1
  /\ status' = IF SlotStops(1, best'.v, Ftol, MaxIter) THEN -1 ELSE 9
  /\ phase' = IF status' = 9 THEN "gen" ELSE "done"
  /\ prevbest' = best'
  /\ log' = Append(log, Entry(best', slots', trials, 1, n, status'))
  /\ trials' = <<>>
  /\ UNCHANGED <<n, minv, minids>>

EvalTrial(v) ==
  /\ phase = "gen" /\ Len(trials) < Pop
  /\ Observe(v)
  /\ LET c == [v |-> v, id |-> n + 1]
         i == Len(trials) + 1
     IN /\ trials' = Append(trials, c)
        /\ IF Sync THEN UNCHANGED <<slots, best>>
           ELSE /\ slots' = AsyncSelect(slots, i, c)
                /\ best' = AsyncBest(slots, best, i, c)
  /\ UNCHANGED <<it, status, phase, prevbest, log>>

EndIter ==
  /\ phase = "gen" /\ Len(trials) = Pop
  /\ LET sl == IF Sync THEN SyncSelect(slots, trials) ELSE slots
         b == IF Sync THEN sl[ArgMin(sl)] ELSE best
         near == XtolHuge \/ b.id = prevbest.id
     IN /\ slots' = sl /\ best' = b /\ prevbest' = b
        /\ it' = it + 1
        /\ status' = IF SlotStops(it', b.v, Ftol, MaxIter)
                     THEN SlotStatus(it', b.v, Ftol, MaxIter, near) ELSE 9
        /\ phase' = IF status' = 9 THEN (IF Alg = "cpso" THEN "restart" ELSE "gen") ELSE "done"
        /\ log' = Append(log, Entry(b, sl, trials, it', n, status'))
        /\ trials' = <<>>
  /\ UNCHANGED <<n, minv, minids>>

\* A set R may be restarted when its members are the worst ones.
Worst(R) == \A i \in R, j \in (1..Pop) \ R : slots[i].v >= slots[j].v

Restart(R) ==
  /\ phase = "restart"
  /\ Cardinality(R) < Pop /\ Worst(R)
  /\ slots' = [i \in 1..Pop |-> IF i \in R THEN [v |-> Inf, id |-> NoId] ELSE slots[i]]
  /\ phase' = "gen"
  /\ UNCHANGED <<best, trials, n, it, status, minv, minids, prevbest, log>>

Done ==
  /\ phase = "done" /\ UNCHANGED vars

Next ==
  \/ \E v \in Levels : EvalInit(v) \/ EvalTrial(v)
  \/ BeginRun \/ EndIter
  \/ \E R \in SUBSET (1..Pop) : Restart(R)
  \/ Done

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
(* Properties *)
Reported == log[Len(log)]

\* C01
BestIsMin ==
  Len(log) > 0 /\ (phase = "done" \/ Len(trials) = 0)
    => Reported.fun = minv /\ Reported.x \in minids
\* C03
Counted == Len(log) > 0 => Reported.nfev = Reported.nit * Pop
\* C04
Bounded == it <= MaxIter /\ Len(log) = it /\ \A k \in 1..Len(log) : log[k].nit = k
\* C05
StopsRight ==
  /\ phase = "done" <=> status # 9
  /\ phase = "done" => (it = MaxIter \/ minv <= Ftol)
  /\ phase = "done" /\ it > 1 => ((status >= 0) <=> minv <= Ftol)
  /\ \A k \in 2..(Len(log) - 1) : log[k].fun > Ftol
\* C07: de's pairs are members; every pair was returned together by the objective
Paired == \A k \in 1..Len(log) : \A i \in 1..Pop :
            LET e == log[k].ids[i] IN log[((e - 1) \div Pop) + 1].raw[((e - 1) % Pop) + 1] = log[k].vals[i]
\* C09 (action property)
Greedy == [][ Len(log') > Len(log) /\ Len(log) > 0 /\ Alg = "de" =>
              \A i \in 1..Pop :
                /\ log'[Len(log')].vals[i] <= log[Len(log)].vals[i]
                /\ log'[Len(log')].ids[i] \in {log[Len(log)].ids[i], Len(log) * Pop + i} ]_vars
MonotoneBest == [][ Len(log') > Len(log) /\ Len(log) > 0 => Reported'.fun <= Reported.fun ]_vars
Terminates == <>(phase = "done")

EmitBehaviour ==
  Emit /\ phase = "done" =>
    PrintT("@@B " \o ToJson([alg |-> Alg, sync |-> Sync, pop |-> Pop, maxiter |-> MaxIter,
                             ftol |-> Ftol, xhuge |-> XtolHuge, log |-> log]))
=============================================================================
