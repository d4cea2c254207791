----------------------------- MODULE FaultTrace -----------------------------
(***************************************************************************)
(* C20 on recorded runs: T.clean is the sequence of calls of the run that  *)
(* does not fail, T.seen the calls of the run whose T.n-th call of kind    *)
(* T.call fails (late calls, made after the exception arrived, included).  *)
(* T.raised: an exception arrived; T.same: it is the one the user raised;  *)
(* T.points: the failing run evaluated the same points up to the failure;  *)
(* T.later: a seeded run made afterwards equals the one made before.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, bad, done
vars == <<tid, i, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C20." \o name}
CountIn(s, k) == Cardinality({q \in DOMAIN s : s[q] = k})
Fault == CHOOSE p \in DOMAIN T.clean : T.clean[p] = T.call /\ CountIn(SubSeq(T.clean, 1, p), T.call) = T.n
RECURSIVE Rest(_)
Rest(p) == IF p >= Len(T.clean) \/ T.clean[p + 1] # "f" THEN 0 ELSE 1 + Rest(p + 1)

Init == tid \in DOMAIN Traces /\ i = 0 /\ bad = {} /\ done = FALSE
\* call by call: a serial run follows the clean run and stops at the failure
Step ==
  /\ ~done /\ i < Len(T.seen)
  /\ i' = i + 1
  /\ bad' = bad \union
       (IF T.par THEN Clause("callbackOfFailedIteration", CountIn(SubSeq(T.seen, 1, i + 1), "c") <= CountIn(SubSeq(T.clean, 1, Fault), "c"))
        ELSE IF i + 1 > Fault THEN Clause("callAfterFailure", FALSE)
        ELSE Clause("differentRun", T.seen[i + 1] = T.clean[i + 1]))
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ i = Len(T.seen)
  /\ LET all == bad \union Clause("raised", T.raised) \union Clause("sameException", ~T.raised \/ T.same)
                    \union Clause("differentPoints", T.points) \union Clause("laterRun", T.later)
                    \union (IF T.par THEN Clause("callAfterFailure",
                              CountIn(T.seen, "f") <= CountIn(SubSeq(T.clean, 1, Fault), "f") + Rest(Fault)) ELSE {})
     IN bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Len(T.seen)
=============================================================================
