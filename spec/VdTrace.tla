------------------------------- MODULE VdTrace ------------------------------
(***************************************************************************)
(* C33 on recorded runs of vdcma.                                          *)
(*  T.n, T.pop, T.root (square root of n, thousandths)                     *)
(*  T.g[k]: rank[1], rank[2] ranks of the first two candidates; size       *)
(*   logarithm of the change of the standard deviation (ten thousandths);  *)
(*   the others are distances in thousandths of a tolerance: affine, mean, *)
(*   start, shape (to the published update), same (to the shape of the     *)
(*   generation before), mirror / along / length (of the injected pair)    *)
(*  T.kind = "few": populations too small to show their distribution;     *)
(*   shape then compares scalar products with the published one            *)
(***************************************************************************)
EXTENDS Adapt, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, k, p, bad, done
vars == <<tid, k, p, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C33." \o name}
Init == tid \in DOMAIN Traces /\ k = 0 /\ p = 0 /\ bad = {} /\ done = FALSE
Ok(v) == v <= 1000
Step ==
  /\ ~done /\ k < Len(T.g)
  /\ LET g == T.g[k + 1]
         p1 == IF k = 0 THEN 0 ELSE TpaPath(p, g.rank[1], g.rank[2], T.pop)
     IN \* p is the path before this generation was ranked: it scaled the step from the last one to this one
        /\ bad' = bad \union Clause("affine", Ok(g.affine)) \union Clause("mean", Ok(g.mean)) \union Clause("start", Ok(g.start))
                      \union Clause("shape", Ok(g.shape))
                      \union Clause("pair", Ok(g.mirror) /\ Ok(g.along) /\ Ok(g.length))
                      \union (IF T.n <= 5 /\ k > 0 /\ T.kind # "few"
                              THEN Clause("fixed", Ok(g.same))
                                   \union Clause("size", Abs(g.size - Div(p * 1000, T.root)) <= 10)
                              ELSE {})
        /\ p' = p1
        /\ k' = k + 1
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ k = Len(T.g)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, k, p, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == Abs(p) <= 10000
=============================================================================
