------------------------------ MODULE PureTrace -----------------------------
(***************************************************************************)
(* C21 on recorded runs: contents are interned, equal numbers are equal    *)
(* contents.                                                               *)
(*  T.args[k]   = <<name, content before, content after>>                  *)
(*  T.states[k] = <<iteration, field, content when handed out, content at  *)
(*                  the end of the run, content after later runs>>         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, bad, done
vars == <<tid, i, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C21." \o name}
Init == tid \in DOMAIN Traces /\ i = 0 /\ bad = {} /\ done = FALSE
Step ==
  /\ ~done /\ i < Len(T.states)
  /\ i' = i + 1
  /\ LET s == T.states[i + 1]
     IN bad' = bad \union Clause(IF s[1] = 0 THEN "result" ELSE "state." \o s[2], s[3] = s[4] /\ s[4] = s[5])
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ i = Len(T.states)
  /\ LET all == bad \union UNION {Clause("argument." \o T.args[k][1], T.args[k][2] = T.args[k][3]) : k \in DOMAIN T.args}
     IN bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Len(T.states)
=============================================================================
