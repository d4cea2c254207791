------------------------------ MODULE StopTrace -----------------------------
(***************************************************************************)
(* C36: generations of the real cmaes and vdcma.  Of every quantity of     *)
(* StopRule a generation carries a lower and an upper bound (1000 times    *)
(* the logarithm), from the published adaptation followed on the points    *)
(* the run evaluated:  T.g[i] = [lo, hi];  T.status is the final status.   *)
(***************************************************************************)
EXTENDS StopRule, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, bad, done
vars == <<tid, i, bad, done>>
T == Traces[tid]
\* the extreme readings of a generation: every reason that may hold does, or only those that must
Easy(g) == [ax |-> g.lo.ax, co |-> g.lo.co, cd |-> g.hi.cd, up |-> g.hi.up, tx |-> g.lo.tx]
Hard(g) == [ax |-> g.hi.ax, co |-> g.hi.co, cd |-> g.lo.cd, up |-> g.lo.up, tx |-> g.hi.tx]
Must(g) == Reasons(T.alg, Hard(g))
May(g) == Reasons(T.alg, Easy(g))
Last == T.full /\ i + 1 = Len(T.g)
Judge(g) ==
  LET st == IF Last THEN T.status ELSE 0
  IN (IF st = 0 /\ Must(g) # {} THEN {"C36.missed"} ELSE {})
     \union (IF st = -1 /\ ~(i + 1 >= T.maxiter) THEN {"C36.reason"} ELSE {})
     \union (IF st < -1 /\ st \in {Order[k] : k \in DOMAIN Order} /\ st \notin May(g) THEN {"C36.reason"} ELSE {})
     \union (IF st < -1 /\ st \notin {Order[k] : k \in DOMAIN Order} THEN {"C36.reason"} ELSE {})
     \union (IF st < -1 /\ \E r \in Must(g) : r > st THEN {"C36.first"} ELSE {})
Init == tid \in DOMAIN Traces /\ i = 0 /\ bad = {} /\ done = FALSE
Step ==
  /\ ~done /\ i < Len(T.g)
  /\ i' = i + 1
  /\ bad' = bad \union Judge(T.g[i + 1])
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ i = Len(T.g)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i, bad>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Len(T.g)
=============================================================================
