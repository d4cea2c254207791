------------------------------ MODULE PSOTrace ------------------------------
(***************************************************************************)
(* C11 on recorded runs.  Positions are integers of at most 30000 units.   *)
(*   T.ev[n] = [v |-> rank, x |-> position, face |-> position on a face?]  *)
(*   T.w, T.c1, T.c2 weights in hundredths; T.shrink; T.lower, T.upper     *)
(*   T.e slack (in hundredths of a unit)                                   *)
(***************************************************************************)
EXTENDS PopCore, PSOMove, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, n, pb, gb, old, bad, done
vars == <<tid, n, pb, gb, old, bad, done>>
T == Traces[tid]
Ev(m) == [v |-> T.ev[m].v, id |-> m]
Clause(name, ok) == IF ok THEN {} ELSE {"C11." \o name}
Abs(a) == IF a < 0 THEN -a ELSE a

Init ==
  /\ tid \in DOMAIN Traces
  /\ n = T.pop
  /\ pb = [i \in 1..T.pop |-> Ev(i)]
  /\ gb = pb[ArgMin(pb)] /\ old = gb
  /\ bad = {} /\ done = FALSE

\* The lawful interval of 100 * step in coordinate j for evaluation m of particle i.
X(m) == T.ev[m].x
Interval(m, j, own, swarm) ==
  LET p == m - T.pop
      x == X(p)[j]
      v == IF p > T.pop THEN x - X(p - T.pop)[j] ELSE 0
      a == X(own)[j] - x
      b == X(swarm)[j] - x
  IN <<Lo(T.w, T.c1, T.c2, v, a, b) - T.e, Hi(T.w, T.c1, T.c2, v, a, b) + T.e>>

\* The step is t times a lawful step for one common t in [0, 1]: every coordinate bounds t from
\* below and from above by fractions <<numerator, denominator>> (denominators positive), or forbids
\* every t (<<1, 0>> as an infinite lower bound).  eps: rounding slack in units.
eps == 2
StepOf(m, j) == X(m)[j] - X(m - T.pop)[j]
Lows(lo, hi, s) ==
  (IF lo < 0 THEN {<<-s - eps, -lo>>} ELSE IF lo = 0 /\ s + eps < 0 THEN {<<2, 1>>} ELSE {})
  \union (IF hi > 0 THEN {<<s - eps, hi>>} ELSE IF hi = 0 /\ s - eps > 0 THEN {<<2, 1>>} ELSE {})
Highs(lo, hi, s) ==
  (IF lo > 0 THEN {<<s + eps, lo>>} ELSE {}) \union (IF hi < 0 THEN {<<eps - s, -hi>>} ELSE {})
Shrunk(m, own, swarm) ==
  LET D == DOMAIN X(m)
      iv == [j \in D |-> Interval(m, j, own, swarm)]
      lo(j) == iv[j][1] \div 100
      hi(j) == iv[j][2] \div 100 + 1
      lows == UNION {Lows(lo(j), hi(j), StepOf(m, j)) : j \in D} \union {<<0, 1>>}
      highs == UNION {Highs(lo(j), hi(j), StepOf(m, j)) : j \in D} \union {<<1, 1>>}
  IN /\ \A p \in lows, q \in highs : p[1] * q[2] <= q[1] * p[2]
     /\ \* some coordinate stopped at a face that the full step could have crossed
        \E j \in D : \/ X(m)[j] <= T.lower[j] + 1 /\ X(m - T.pop)[j] + lo(j) <= T.lower[j] + eps
                     \/ X(m)[j] >= T.upper[j] - 1 /\ X(m - T.pop)[j] + hi(j) >= T.upper[j] - eps

Step ==
  /\ ~done /\ n < Len(T.ev)
  /\ LET i == (n % T.pop) + 1
         m == n + 1
         e == Ev(m)
         swarm == (IF T.sync THEN old ELSE gb).id
         own == pb[i].id
         free == \A j \in DOMAIN X(m) : LET iv == Interval(m, j, own, swarm)
                                          s == 100 * StepOf(m, j)
                                      IN s >= iv[1] /\ s <= iv[2]
         ok == free \/ (T.shrink /\ T.ev[m].face /\ Shrunk(m, own, swarm))
         win == IF T.sync THEN e.v < pb[i].v ELSE e.v <= pb[i].v
         p2 == IF win THEN [pb EXCEPT ![i] = e] ELSE pb
         g2 == IF T.sync THEN (IF i = T.pop THEN p2[ArgMin(p2)] ELSE gb)
               ELSE IF win /\ e.v <= gb.v THEN e ELSE gb
     IN /\ bad' = bad \union Clause("step", ok)
        /\ pb' = p2 /\ gb' = g2
        /\ old' = IF i = T.pop THEN g2 ELSE old
  /\ n' = n + 1
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ n = Len(T.ev)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, n, pb, gb, old, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == n <= Len(T.ev)
=============================================================================
