------------------------------ MODULE NATrace -------------------------------
(***************************************************************************)
(* C13 on recorded runs.                                                   *)
(*   T.v: ranks of the values of all models in order of evaluation         *)
(*   T.new[n]: models of the earlier iterations nearest to model pop + n   *)
(*       (squared distance in normalised coordinates, fixed coordinates    *)
(*       left out, 1e-9 slack)                                             *)
(*   T.kind = "stat": over all runs, where in its segment each coordinate  *)
(*       was drawn: T.outside draws outside, T.z standardised deviations    *)
(*       (thousandths) of the moments of the uniform distribution           *)
(*   T.still: free coordinates in which all new models coincide            *)
(*   T.fixed[n]: do the coordinates with coinciding bounds have that value?*)
(***************************************************************************)
EXTENDS NACell, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, n, bad, done
vars == <<tid, n, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C13." \o name}
Set(s) == {s[i] : i \in DOMAIN s}
Max(a, b) == IF a > b THEN a ELSE b
Init == tid \in DOMAIN Traces /\ n = 0 /\ bad = {} /\ done = FALSE
Stat ==
  IF T.kind # "stat" THEN {} ELSE
    Clause("segment", T.outside = 0)
    \union Clause("uniform", \A k \in DOMAIN T.z : T.z[k] <= 7000 /\ T.z[k] >= -7000)
Moves == IF T.kind # "run" THEN {} ELSE Clause("frozen", T.still = 0)
Step ==
  /\ ~done /\ n < Len(T.new)
  /\ LET it == n \div T.pop
         vals == SubSeq(T.v, 1, (it + 1) * T.pop)
     IN bad' = bad \union Clause("cell", Lawful(vals, Set(T.new[n + 1]), n % T.pop, T.nr))
                   \union Clause("fixed", T.fixed[n + 1])
  /\ n' = n + 1 /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ n = Len(T.new)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad \union Stat \union Moves]))
  /\ done' = TRUE /\ UNCHANGED <<tid, n, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == n <= Len(T.new)
=============================================================================
