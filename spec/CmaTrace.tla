------------------------------ MODULE CmaTrace ------------------------------
(***************************************************************************)
(* C31 on recorded runs of cmaes.                                          *)
(*  T.n, T.pop, T.mu, T.me (mueff, hundredths), T.w (ten thousandths),     *)
(*  T.chi (thousandths), T.rate (c1 + cmu, millionths)                     *)
(*  T.g[k], one generation:                                                *)
(*   rank[i]   rank of the fitness of member i                             *)
(*   affine, mean, start  distances in thousandths of a tolerance          *)
(*   res[h]    distance of the shape sampled from to the published matrix  *)
(*             after h-1 updates                                           *)
(*   law       the numbers below are small enough to be exact to a percent *)
(*   y[i]      steps of the members, C the matrix sampled from, N the next *)
(*             one in the unit of this generation, W the inverse root of C,*)
(*             dm the step of the mean, ps, pc the paths before, hs        *)
(*  T.kind = "few": populations too small to show their distribution; res  *)
(*   compares their scalar products with those of the published one        *)
(***************************************************************************)
EXTENDS Adapt, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, k, ver, decay, bad, done
vars == <<tid, k, ver, decay, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C31." \o name}
Cs == CS(T.n, T.me)
Cc == CC(T.n, T.me)
Init == tid \in DOMAIN Traces /\ k = 0 /\ ver = 0 /\ decay = 10000 /\ bad = {} /\ done = FALSE

\* one percent of the size of the matrix, and the rounding of the entries
Close(n, A, B) ==
  LET size == CHOOSE m \in {A[a][a] : a \in 1..n} : \A a \in 1..n : A[a][a] <= m
  IN \A a \in 1..n, b \in 1..n : Abs(A[a][b] - B[a][b]) <= 15 + size \div 60

\* the published update, from what this generation shows to what the next one shows
Law(g, d) ==
  LET n == T.n
      ord == Parents(g.rank, T.mu)
      py == [q \in 1..T.mu |-> g.y[ord[q]]]
      mean == [j \in 1..n |-> WMean(T.w, [q \in 1..T.mu |-> py[q][j]])]
      wstep == [j \in 1..n |-> Div(Sum([b \in 1..n |-> g.W[j][b] * mean[b]]), 1000)]
      ps == Path(g.ps, Cs, Gain(Cs, T.me), wstep, TRUE)
      len == Norm(ps)
      pc == Path(g.pc, Cc, Gain(Cc, T.me), mean, g.hs)
      C == CovStep(n, g.C, RankMu(n, T.w, py), pc, C1(n, T.me), CMu(n, T.me), Cc, g.hs)
      r == SizeChange(Cs, Damps(n, T.me, Cs), len, T.chi)
      scaled == [a \in 1..n |-> [b \in 1..n |-> Div(Div(C[a][b] * r, 10000) * r, 10000)]]
      \* W is the inverse root of C: the witness is checked, not trusted
      unit == \A a \in 1..n, b \in 1..n :
                Abs(Div(Sum([c \in 1..n |-> g.W[a][c] * Div(Sum([e \in 1..n |-> g.C[c][e] * g.W[e][b]]), 1000)]), 1000)
                    - (IF a = b THEN 1000 ELSE 0)) <= 60
      \* the path is long when its length, corrected for its age, exceeds 1.4 + 2 / (n + 1) of the expected one
      long == (Div(len * 1000, Max2(1, Sqrt(Max2(1, 1000000 - d * 100)))) * 1000) \div T.chi
      edge == 1400 + 2000 \div (n + 1)
  IN Clause("parents", \A j \in 1..n : Abs(mean[j] - g.dm[j]) <= 4)
     \union (IF unit
             THEN Clause("update", Close(n, scaled, g.N))
                  \union Clause("stall", (g.hs => long <= edge + 60) /\ (~g.hs => long >= edge - 60))
             ELSE {})

Step ==
  /\ ~done /\ k < Len(T.g)
  /\ LET g == T.g[k + 1]
         d == Div(Div(decay * (10000 - Cs), 10000) * (10000 - Cs), 10000)
     IN /\ bad' = bad \union Clause("affine", g.affine <= 1000)
                      \union Clause("mean", g.mean <= 1000) \union Clause("start", g.start <= 1000)
                      \union Clause("shape", g.res[ver + 1] <= 1000)
                      \union (IF "law" \in DOMAIN g THEN (IF g.law THEN Law(g, d) ELSE {}) ELSE {})
        /\ decay' = d
        /\ ver' = IF Due(T.n, T.rate, k + 1 - ver) THEN k + 1 ELSE ver
        /\ k' = k + 1
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ k = Len(T.g)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, k, ver, decay, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == ver <= k
=============================================================================
