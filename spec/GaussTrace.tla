----------------------------- MODULE GaussTrace -----------------------------
(***************************************************************************)
(* C15 (generations of cmaes and vdcma) on recorded runs.                  *)
(*  T.kind = "first": standardised first generation                        *)
(*    T.mean[j], T.var[j], T.kurt[j], T.core[j], T.cross[..]  (thousandths *)
(*    of a standard error), T.eig for vdcma (eigenvalues minus one,        *)
(*    ascending, same unit)                                                *)
(*  T.kind = "faces": first generation with 'Penalize' and x0 at a face:   *)
(*    T.side shares of points below some coordinates against those of a    *)
(*    normal distribution around x0 (thousandths of a standard error),     *)
(*    T.more how much narrower than sigma it is not                        *)
(*  T.kind = "later": T.rank[i] value rank and T.x[i][j] position of the   *)
(*    members of the previous generation (thousandths of its deviation),   *)
(*    T.center[j] centre of the generation, T.e slack, T.pop, T.num/T.den  *)
(*    the fraction of parents                                              *)
(***************************************************************************)
EXTENDS Gauss, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, bad, done
vars == <<tid, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C15." \o name}
All(s) == \A j \in DOMAIN s : Accept(s[j])
Init == tid \in DOMAIN Traces /\ bad = {} /\ done = FALSE

\* k-th best member (1-based); ranks of values are distinct
Kth(k) == CHOOSE i \in DOMAIN T.rank : Cardinality({q \in DOMAIN T.rank : T.rank[q] < T.rank[i]}) = k - 1
Verdict ==
  IF T.kind = "first"
  THEN Clause("mean", All(T.mean))
       \union (IF T.alg = "cmaes"
               THEN Clause("deviation", All(T.var)) \union Clause("normal", All(T.kurt) /\ All(T.core))
                    \union Clause("independent", All(T.cross))
               ELSE Clause("deviation", \A j \in DOMAIN T.var : T.var[j] >= -7000)
                    \union Clause("direction", \A j \in DOMAIN T.eig : j < Len(T.eig) => Abs(T.eig[j]) <= 10000)
                    \union Clause("more", T.eig[Len(T.eig)] >= -10000)
                    \union Clause("normal", All(T.kurt) /\ All(T.core)))
  ELSE IF T.kind = "faces"
  THEN Clause("repaired", ~T.out) \union Clause("face", All(T.side)) \union Clause("spread", \A j \in DOMAIN T.more : T.more[j] >= -7000)
  ELSE LET mu == Mu(T.num, T.den, T.pop)
           order == [k \in 1..mu |-> Kth(k)]
       IN Clause("center", \A j \in DOMAIN T.center :
            Abs(T.center[j] - Mean(mu, [k \in 1..mu |-> T.x[order[k]][j]])) <= T.e[j])
End ==
  /\ ~done /\ bad' = Verdict
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad']))
  /\ done' = TRUE /\ UNCHANGED tid
Next == End
Spec == Init /\ [][Next]_vars
Sane == done \in BOOLEAN
=============================================================================
