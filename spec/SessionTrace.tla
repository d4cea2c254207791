---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* C37: recorded sessions of several calls.                                *)
(*  T.alone[k]  what call k observed when it was the only one: one token   *)
(*              per evaluation or callback                                 *)
(*  T.ev        the session: <<call, token>> in the order of time          *)
(*  T.res[k]    tokens of the results: alone, when it was returned, when   *)
(*              the session was over                                       *)
(*  T.exc[k]    "" or how the call failed                                  *)
(* Tokens are equal iff the bits are.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, at, bad, done
vars == <<tid, i, at, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C37." \o name}
Init == tid \in DOMAIN Traces /\ i = 0 /\ at = [k \in DOMAIN T.alone |-> 0] /\ bad = {} /\ done = FALSE
Step ==
  /\ ~done /\ i < Len(T.ev)
  /\ LET k == T.ev[i + 1][1]
         t == T.ev[i + 1][2]
     IN /\ at' = [at EXCEPT ![k] = @ + 1]
        /\ bad' = bad \union Clause("asAlone", at[k] < Len(T.alone[k]) /\ T.alone[k][at[k] + 1] = t)
  /\ i' = i + 1
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ i = Len(T.ev)
  /\ LET all == bad
           \union Clause("length", \A k \in DOMAIN T.alone : at[k] = Len(T.alone[k]))
           \union Clause("result", \A k \in DOMAIN T.res : T.res[k][1] = T.res[k][2])
           \union Clause("frozen", \A k \in DOMAIN T.res : T.res[k][2] = T.res[k][3])
           \union Clause("completes", \A k \in DOMAIN T.exc : T.exc[k] = "")
     IN /\ bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i, at>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Len(T.ev)
=============================================================================
