------------------------------ MODULE DETrace -------------------------------
(***************************************************************************)
(* C10 on recorded runs with integer populations (exact arithmetic).       *)
(*   T.pop, T.sync, T.strategy, T.f2, T.cr                                 *)
(*   T.ev[n] = [v |-> rank of the value, x |-> position]   (all iterations)*)
(* The members are tracked with the selection operators of PopCore.        *)
(***************************************************************************)
EXTENDS PopCore, DEMove, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, n, slots, old, best, bad, done
vars == <<tid, n, slots, old, best, bad, done>>
T == Traces[tid]
Ev(m) == [v |-> T.ev[m].v, id |-> m]
Pos(ms) == [i \in DOMAIN ms |-> T.ev[ms[i].id].x]
Clause(name, ok) == IF ok THEN {} ELSE {"C10." \o name}

Init ==
  /\ tid \in DOMAIN Traces
  /\ n = T.pop
  /\ slots = [i \in 1..T.pop |-> Ev(i)]
  /\ old = slots /\ best = slots[ArgMin(slots)]
  /\ bad = {} /\ done = FALSE

Step ==
  /\ ~done /\ n < Len(T.ev)
  /\ LET i == (n % T.pop) + 1
         e == Ev(n + 1)
         src == IF T.sync THEN old ELSE slots
         ok == Lawful(T.strategy, T.f2, T.cr, Pos(src), T.ev[best.id].x, i, T.ev[n + 1].x)
         win == IF T.sync THEN e.v < slots[i].v ELSE AsyncAccepts(slots, i, e)
         s2 == IF win THEN [slots EXCEPT ![i] = e] ELSE slots
     IN /\ bad' = bad \union Clause("trial", ok)
        /\ slots' = s2
        /\ best' = IF T.sync THEN (IF i = T.pop THEN s2[ArgMin(s2)] ELSE best) ELSE AsyncBest(slots, best, i, e)
        /\ old' = IF i = T.pop THEN s2 ELSE old
  /\ n' = n + 1
  /\ UNCHANGED <<tid, done>>

End ==
  /\ ~done /\ n = Len(T.ev)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, n, slots, old, best, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == n <= Len(T.ev)
=============================================================================
