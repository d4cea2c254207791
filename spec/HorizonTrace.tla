---------------------------- MODULE HorizonTrace ----------------------------
(***************************************************************************)
(* C38: two recorded runs that differ in maxiter, ftol or xtol only.       *)
(*  T.a, T.b    [ev: one sequence of tokens per iteration, cb: one token   *)
(*              per callback, res: token of the result, fun: rank of the   *)
(*              best value, st: status]; b has the wider limits            *)
(*  T.same      a ended for a reason that b's limits do not move           *)
(*  T.greedy    the best is never lost                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, bad, done
vars == <<tid, i, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C38." \o name}
Init == tid \in DOMAIN Traces /\ i = 0 /\ bad = {} /\ done = FALSE
Step ==
  /\ ~done /\ i < Len(T.a.ev)
  /\ i' = i + 1
  /\ bad' = bad \union Clause("points", i < Len(T.b.ev) /\ T.a.ev[i + 1] = T.b.ev[i + 1])
       \union Clause("callbacks", i < Len(T.a.cb) => (i < Len(T.b.cb) /\ T.a.cb[i + 1] = T.b.cb[i + 1]))
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ i = Len(T.a.ev)
  /\ LET all == bad
           \union Clause("longer", Len(T.b.ev) >= Len(T.a.ev))
           \union Clause("sameEnd", T.same => Len(T.b.ev) = Len(T.a.ev) /\ T.a.res = T.b.res)
           \union Clause("notWorse", T.greedy => T.b.fun <= T.a.fun)
     IN /\ bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Len(T.a.ev)
=============================================================================
