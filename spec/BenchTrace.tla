----------------------------- MODULE BenchTrace -----------------------------
(***************************************************************************)
(* C28 on recorded evaluations.  T.k lattice point, T.got the observed     *)
(* values turned back into the integers of Bench (harness: subtract the    *)
(* transcendental part, multiply, round) with T.off the distance to that   *)
(* integer (thousandths of the tolerance); T.rel relations between several *)
(* evaluations: <<clause, distance>>; T.mut did an argument change         *)
(***************************************************************************)
EXTENDS Bench, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, bad, done
vars == <<tid, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C28." \o name}
Init == tid \in DOMAIN Traces /\ bad = {} /\ done = FALSE
Lattice ==
  IF T.kind # "lattice" THEN {} ELSE
  LET p == T.k g == T.got IN
    Clause("sphere", g.sphere = Sq(p)) \union Clause("quartic", g.quartic = Quartic(p))
    \union Clause("styblinski_tang", g.styblinski_tang = Sty(p))
    \union Clause("rosenbrock", Len(p) < 2 \/ (g.rosenbrock = RosA(p) * 100 + RosB(p) * 64))
    \union Clause("rastrigin", g.rastrigin = Sq(p) - 640 * (CA(p) - Len(p)))
End ==
  /\ ~done
  /\ bad' = Lattice \union UNION {Clause(T.rel[i][1], T.rel[i][2] <= 1000) : i \in DOMAIN T.rel} \union Clause("mutated", ~T.mut)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad']))
  /\ done' = TRUE /\ UNCHANGED tid
Spec == Init /\ [][End]_vars
Sane == done \in BOOLEAN
=============================================================================
