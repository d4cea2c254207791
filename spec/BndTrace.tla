------------------------------ MODULE BndTrace ------------------------------
(***************************************************************************)
(* C32 on recorded runs of cmaes and vdcma with 'Penalize'.                *)
(*  T.n, T.pop, T.f (growth factor, ten thousandths), T.one (the number 1  *)
(*  in the unit of the deltas), T.top (weights beyond it are not compared) *)
(*  T.g[k]: delta (interquartile range of the raw values / n / mean        *)
(*   variance), out[j] side of the box the mean is on (0 inside), grow[j]  *)
(*   the mean is far out and moving away, w[j] the weight the penalties    *)
(*   show (-1: does not show), linear / repaired / mean distances in       *)
(*   thousandths of a tolerance                                            *)
(***************************************************************************)
EXTENDS Adapt, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, k, s, bad, done
vars == <<tid, k, s, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C32." \o name}
Init ==
  /\ tid \in DOMAIN Traces
  /\ k = 0 /\ bad = {} /\ done = FALSE
  /\ s = [w |-> [j \in 1..T.n |-> 0], hist |-> <<T.one>>, valid |-> FALSE, ini |-> TRUE]
Near(a, b) == Abs(a - b) <= 6 + b \div 500
Step ==
  /\ ~done /\ k < Len(T.g)
  /\ LET g == T.g[k + 1]
         s1 == BndStep(s, T.n, T.pop, k + 1, g.delta, g.out, g.grow, T.f, T.one)
     IN /\ s' = [s1 EXCEPT !.w = [j \in DOMAIN s1.w |-> Min2(s1.w[j], 2 * T.top)]]
        /\ bad' = bad \union Clause("weight", \A j \in DOMAIN g.w : g.w[j] # -1 /\ s1.w[j] <= T.top => Near(g.w[j], s1.w[j]))
                      \union Clause("quadratic", g.linear <= 1000)
                      \union Clause("repair", g.repaired <= 1000)
                      \union Clause("ranked", g.mean <= 1000)
        /\ k' = k + 1
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ k = Len(T.g)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, k, s, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == /\ Len(s.hist) * T.pop < HistCap(T.n, T.pop) + T.pop
        /\ \A j \in DOMAIN s.w : s.w[j] >= 0
=============================================================================
