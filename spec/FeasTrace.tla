----------------------------- MODULE FeasTrace ------------------------------
(***************************************************************************)
(* C08 on recorded runs.  Every evaluated point, every sample of a chain   *)
(* and the reported solution is a tuple of integers, the position in       *)
(* millionths of the width of the box (values within rounding of a face    *)
(* are on the face; NAN stands for a number that is not finite).           *)
(*   T.ev     the points evaluated (for the samplers with 'Reject': the    *)
(*            points of the chain)                                         *)
(*   T.free   the sampler cannot reach a face: every proposal is feasible  *)
(*            and, the objective being constant, must be accepted          *)
(*   T.moved  for a free chain, per sample: was a new point evaluated and  *)
(*            taken                                                        *)
(*   T.vals   sampler: <<position of the sample inside?, value matches     *)
(*            an evaluation at that sample?>>                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, bad, done
vars == <<tid, i, bad, done>>
T == Traces[tid]
Unit == 1000000
Clause(name, ok) == IF ok THEN {} ELSE {"C08." \o name}
In(p) == \A j \in DOMAIN p : p[j] >= 0 /\ p[j] <= Unit

Init == tid \in DOMAIN Traces /\ i = 0 /\ bad = {} /\ done = FALSE
Step ==
  /\ ~done /\ i < Len(T.ev)
  /\ i' = i + 1
  /\ bad' = bad \union Clause("inside", In(T.ev[i + 1]))
                 \union (IF T.free THEN Clause("frozen", T.moved[i + 1]) ELSE {})
                 \union (IF T.sampler THEN Clause("decided", T.seen[i + 1]) ELSE {})
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ i = Len(T.ev)
  /\ LET all == bad \union Clause("reported", In(T.x))
     IN bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Len(T.ev)
=============================================================================
