------------------------------ MODULE InitTrace -----------------------------
(***************************************************************************)
(* C14 on recorded first iterations.                                       *)
(*   T.kind = "x0": T.rows[n] = number of the x0 row evaluated n-th        *)
(*            (0: none of them); "lhs": T.strata[i][j] list of intervals;  *)
(*            "sample": T.first = [x0given, equal, inside]                 *)
(***************************************************************************)
EXTENDS InitPop, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, bad, done
vars == <<tid, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C14." \o name}
Set(s) == {s[i] : i \in DOMAIN s}
Init == tid \in DOMAIN Traces /\ bad = {} /\ done = FALSE
Verdict ==
  CASE T.kind = "x0" -> Clause("x0", Len(T.rows) = T.pop /\ \A n \in DOMAIN T.rows : n \in Set(T.rows[n]))
    [] T.kind = "lhs" -> Clause("lhs", LatinHypercube([i \in DOMAIN T.strata |-> [j \in DOMAIN T.strata[i] |-> Set(T.strata[i][j])]], T.pop))
    [] T.kind = "sample" -> Clause("first", IF T.given THEN T.equal ELSE T.inside)
End ==
  /\ ~done /\ bad' = Verdict
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad']))
  /\ done' = TRUE /\ UNCHANGED tid
Next == End
Spec == Init /\ [][Next]_vars
Sane == done \in BOOLEAN
=============================================================================
