---------------------------- MODULE RestartTrace ----------------------------
(***************************************************************************)
(* C12 on recorded runs.                                                   *)
(*   T.mode = "frozen": no sociability, particles only move by restarts    *)
(*   T.mode = "never":  no restart may happen at all                       *)
(*   T.mode = "free":   inertia and sociability (no own-best part), tiny   *)
(*       box, best point in the box: a particle whose step breaks the step *)
(*       law was repositioned; without velocity it is then drawn from a    *)
(*       place in the box towards the best, so it is evaluated in the box  *)
(*   T.it[k] = [v |-> values, x |-> positions (integers, mode free),       *)
(*              moved |-> slots whose place changed since iteration k-1,   *)
(*              inside |-> per slot: evaluated inside the bounds?]         *)
(*   T.contracted: swarm and box far below any collapse radius             *)
(*   T.some: competitivity 2 and at least 4 particles: restarts must occur *)
(* T.more: the same run with a larger competitivity (numbers per iteration)*)
(***************************************************************************)
EXTENDS Restart, PSOMove, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, k, pv, num, best, fresh, bad, done
vars == <<tid, k, pv, num, best, fresh, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C12." \o name}
Set(s) == {s[i] : i \in DOMAIN s}

\* Slots of iteration q that cannot have come from iteration q-1 by a step (deferred updating).
At(id) == T.it[((id - 1) \div T.pop) + 1].x[((id - 1) % T.pop) + 1]
Breaks(q, i) ==
  \E j \in DOMAIN T.it[q].x[i] :
    LET x == T.it[q - 1].x[i][j]
        v == IF q > 2 THEN x - T.it[q - 2].x[i][j] ELSE 0
        b == At(best.id)[j] - x
    IN ~Within(T.it[q].x[i][j] - x, Lo(T.w, 0, T.c2, v, 0, b), Hi(T.w, 0, T.c2, v, 0, b), 500)

Init ==
  /\ tid \in DOMAIN Traces /\ k = 1 /\ num = T.pop - 1
  /\ pv = [i \in 1..T.pop |-> [v |-> T.it[1].v[i], id |-> i]]
  /\ best = pv[ArgMin(pv)] /\ fresh = {}
  /\ bad = {} /\ done = FALSE

Step ==
  /\ ~done /\ k < Len(T.it)
  /\ LET S == IF T.mode = "free" THEN {i \in 1..T.pop \ fresh : Breaks(k + 1, i)}
              ELSE Set(T.it[k + 1].moved)
         n == Cardinality(S)
         forgot == Forget(S, pv)
         vs == T.it[k + 1].v
     IN /\ bad' = bad
             \union (IF T.mode = "never" THEN Clause("never", S = {}) ELSE {})
             \union (IF T.mode = "frozen" THEN Clause("worst", IsWorst(S, pv)) ELSE {})
             \union Clause("best", S # 1..T.pop)
             \union (IF T.mode = "frozen" /\ k > 2 THEN Clause("nonIncreasing", n <= num) ELSE {})
             \* (mode free: a repositioning that happens to obey the step law goes unnoticed and makes
             \*  the following step look odd; it was then in the box one iteration before)
             \union Clause("inside", \A i \in S : T.it[k + 1].inside[i] \/ (T.mode = "free" /\ T.it[k].inside[i]))
             \union (IF T.mode = "frozen" /\ T.some /\ k = 2 THEN Clause("happens", n > 0) ELSE {})
             \union (IF T.mode = "frozen" /\ T.more # <<>> /\ k < Len(T.more)
                     THEN Clause("competitivity", n <= T.more[k + 1]) ELSE {})
        /\ num' = n
        /\ fresh' = S
        /\ best' = LET ms == [i \in 1..T.pop |-> [v |-> vs[i], id |-> k * T.pop + i]]
                   IN IF ms[ArgMin(ms)].v < best.v THEN ms[ArgMin(ms)] ELSE best
        /\ pv' = [i \in 1..T.pop |->
                    IF (IF T.sync THEN vs[i] < forgot[i].v ELSE vs[i] <= forgot[i].v)
                    THEN [v |-> vs[i], id |-> k * T.pop + i] ELSE forgot[i]]
  /\ k' = k + 1 /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ k = Len(T.it)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, k, pv, num, best, fresh, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == k <= Len(T.it)
=============================================================================
