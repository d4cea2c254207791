--------------------------------- MODULE Spmd ---------------------------------
(***************************************************************************)
(* The mpi backend: R ranks run the same program.  A rank runs locally to  *)
(* its next collective call and waits there; when all ranks wait at the    *)
(* same collective it is executed for all.  Per generation:                *)
(*   Bcast of the candidates, evaluation of every R-th candidate, Barrier, *)
(*   Allreduce of the values, selection (local, deterministic).            *)
(* Before the first generation the random state of rank 0 is broadcast     *)
(* (SyncRng); without it and without a seed every rank has its own stream. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS R, N, Gens, Seeded, SyncRng, MaxLog, Emit

Ranks == 0..(R - 1)
VARIABLES pc,      \* next collective of each rank: what it waits for, or "run", "done"
          rng,     \* random stream of each rank
          cand,    \* candidates of the rank's own population: <<stream, generation>>
          buf,     \* candidates as received (what is evaluated)
          part, full, \* partial and reduced values
          gen, evals, best, log
vars == <<pc, rng, cand, buf, part, full, gen, evals, best, log>>

Cand(s, g) == [i \in 0..(N - 1) |-> <<s, g, i>>]
Zero == [i \in 0..(N - 1) |-> <<>>]
Share(r) == {i \in 0..(N - 1) : i % R = r}

Init ==
  /\ pc = [r \in Ranks |-> "start"]
  /\ rng = [r \in Ranks |-> IF Seeded THEN 0 ELSE r]
  /\ cand = [r \in Ranks |-> Zero] /\ buf = [r \in Ranks |-> Zero]
  /\ part = [r \in Ranks |-> Zero] /\ full = [r \in Ranks |-> Zero]
  /\ gen = [r \in Ranks |-> 0] /\ best = [r \in Ranks |-> <<<<>>, <<>>>>]
  /\ evals = [g \in 1..Gens |-> [i \in 0..(N - 1) |-> 0]]
  /\ log = <<>>

Note(r) == log' = IF Len(log) < MaxLog THEN Append(log, r) ELSE log

\* Local steps, each up to the next collective.
Start(r) ==
  /\ pc[r] = "start"
  /\ pc' = [pc EXCEPT ![r] = IF SyncRng THEN "w:rng" ELSE "w:bcast"]
  /\ IF SyncRng THEN UNCHANGED <<cand, gen>>
     ELSE /\ gen' = [gen EXCEPT ![r] = 1] /\ cand' = [cand EXCEPT ![r] = Cand(rng[r], 1)]
  /\ Note(r) /\ UNCHANGED <<rng, buf, part, full, evals, best>>

Mutate(r) ==
  /\ pc[r] = "rng"
  /\ pc' = [pc EXCEPT ![r] = "w:bcast"]
  /\ gen' = [gen EXCEPT ![r] = 1] /\ cand' = [cand EXCEPT ![r] = Cand(rng[r], 1)]
  /\ Note(r) /\ UNCHANGED <<rng, buf, part, full, evals, best>>

Evaluate(r) ==
  /\ pc[r] = "bcast"
  /\ pc' = [pc EXCEPT ![r] = "w:barrier"]
  /\ part' = [part EXCEPT ![r] = [i \in 0..(N - 1) |-> IF i \in Share(r) THEN buf[r][i] ELSE <<>>]]
  /\ evals' = [evals EXCEPT ![gen[r]] = [i \in 0..(N - 1) |-> IF i \in Share(r) THEN @[i] + 1 ELSE @[i]]]
  /\ Note(r) /\ UNCHANGED <<rng, cand, buf, full, gen, best>>

Reduce(r) ==
  /\ pc[r] = "barrier"
  /\ pc' = [pc EXCEPT ![r] = "w:allreduce"]
  /\ Note(r) /\ UNCHANGED <<rng, cand, buf, part, full, gen, evals, best>>

Select(r) ==
  /\ pc[r] = "allreduce"
  /\ best' = [best EXCEPT ![r] = <<cand[r][0], full[r][0]>>]
  /\ IF gen[r] = Gens
     THEN pc' = [pc EXCEPT ![r] = "done"] /\ UNCHANGED <<gen, cand>>
     ELSE /\ pc' = [pc EXCEPT ![r] = "w:bcast"]
          /\ gen' = [gen EXCEPT ![r] = @ + 1]
          /\ cand' = [cand EXCEPT ![r] = Cand(rng[r], gen[r] + 1)]
  /\ Note(r) /\ UNCHANGED <<rng, buf, part, full, evals>>

\* Collectives: enabled when every rank waits at the same one.
All(w) == \A r \in Ranks : pc[r] = w
CRng == /\ All("w:rng") /\ pc' = [r \in Ranks |-> "rng"] /\ rng' = [r \in Ranks |-> rng[0]]
        /\ UNCHANGED <<cand, buf, part, full, gen, evals, best, log>>
CBcast == /\ All("w:bcast") /\ pc' = [r \in Ranks |-> "bcast"] /\ buf' = [r \in Ranks |-> cand[0]]
          \* Bcast writes into the array given, which is the candidate array itself on every rank
          /\ UNCHANGED <<rng, cand, part, full, gen, evals, best, log>>
CBarrier == /\ All("w:barrier") /\ pc' = [r \in Ranks |-> "barrier"]
            /\ UNCHANGED <<rng, cand, buf, part, full, gen, evals, best, log>>
CAllreduce ==
  /\ All("w:allreduce") /\ pc' = [r \in Ranks |-> "allreduce"]
  /\ full' = [r \in Ranks |-> [i \in 0..(N - 1) |-> part[CHOOSE s \in Ranks : i \in Share(s)][i]]]
  /\ UNCHANGED <<rng, cand, buf, part, gen, evals, best, log>>

Finished == (\A r \in Ranks : pc[r] = "done") /\ UNCHANGED vars
Next == (\E r \in Ranks : Start(r) \/ Mutate(r) \/ Evaluate(r) \/ Reduce(r) \/ Select(r))
        \/ CRng \/ CBcast \/ CBarrier \/ CAllreduce \/ Finished
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C19
InStep == \A r, s \in Ranks : gen[r] - gen[s] \in -1..1
OnceEach == \A g \in 1..Gens, i \in 0..(N - 1) : evals[g][i] <= 1
AllDone == \A r \in Ranks : pc[r] = "done"
Complete == AllDone => \A g \in 1..Gens, i \in 0..(N - 1) : evals[g][i] = 1
Agree == AllDone => \A r, s \in Ranks : best[r] = best[s]
Belongs == AllDone => \A r \in Ranks : best[r][1] = best[r][2]
Terminates == <>AllDone
EmitBehaviour == Emit /\ AllDone => PrintT("@@B " \o ToJson([r |-> R, schedule |-> log]))
=============================================================================
