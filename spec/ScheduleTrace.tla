--------------------------- MODULE ScheduleTrace ----------------------------
(***************************************************************************)
(* C39 on recorded runs of cpso.  T.it[k]:                                 *)
(*   coll   is the swarm of iteration k inside the collapse radius?        *)
(*   lo, hi E for iteration k (rounding), units of 1/SC                    *)
(*   moved  slots found elsewhere at iteration k+1 (mode frozen)           *)
(*   x      positions on a lattice (mode drift: inertia 1, sociability     *)
(*          T.c2 hundredths, no own-best part): a particle whose step      *)
(*          breaks the step law was repositioned                           *)
(***************************************************************************)
EXTENDS Schedule, PSOMove, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, k, fresh, bad, done
vars == <<tid, k, fresh, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C39." \o name}

\* A particle repositioned one iteration before has an unknown small velocity (two steps' worth at most).
\* Did particle i get from iteration q to q+1 by a step?  best: lattice point of the swarm's best at q.
Stepped(q, i) ==
  \A j \in DOMAIN T.it[q].x[i] :
    LET x == T.it[q].x[i][j]
        s == T.it[q + 1].x[i][j] - x
        v == IF q > 1 THEN x - T.it[q - 1].x[i][j] ELSE 0
        b == T.it[q].best[j] - x
        a == IF q > 1 THEN T.it[q - 1].best[j] - x ELSE 0
    IN IF i \in fresh THEN Within(s, Lo(0, 2 * T.c2, 2 * T.c2, 0, a, b), Hi(0, 2 * T.c2, 2 * T.c2, 0, a, b), 500)
       ELSE Within(s, Lo(100, 0, T.c2, v, 0, b), Hi(100, 0, T.c2, v, 0, b), 500)
Moved(q) == IF T.mode = "frozen" THEN {T.it[q + 1].moved[i] : i \in DOMAIN T.it[q + 1].moved}
            ELSE {i \in 1..T.p : ~Stepped(q, i)}

Init == tid \in DOMAIN Traces /\ k = 1 /\ fresh = {} /\ bad = {} /\ done = FALSE
Step ==
  /\ ~done /\ k < T.m
  /\ LET e == T.it[k]
         S == Moved(k)
         n == Cardinality(S)
         ok == Allowed(k, T.m, T.p, e.lo, e.hi, e.coll)
     IN /\ bad' = bad \union Clause("first", k > 1 \/ n = 0)
                      \union Clause("radius", k = 1 \/ ~(e.coll = "n" /\ n > 0))
                      \union Clause("number", k = 1 \/ e.coll = "n" \/ n \in ok)
        /\ fresh' = S
  /\ k' = k + 1 /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ k = T.m
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, k, fresh, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == k <= T.m
=============================================================================
