----------------------------- MODULE FieldsTrace ----------------------------
(***************************************************************************)
(* Which fields a result and a callback state have, and what kind of value *)
(* each holds ("vector", "number", "count", "flag", "text", "rows",        *)
(* "table"; anything else is reported by its type).                        *)
(*  T.opt    optimizer (or sampler)   T.keep  return_all                   *)
(*  T.res    field -> kind            T.cbs   the same for every state     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, bad, done
vars == <<tid, i, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C34." \o name}
Final == IF T.opt THEN {"success", "status", "message"} ELSE {}
Kept == IF T.keep THEN {"xall", "funall"} ELSE {}
Documented == {"x", "fun", "nit"} \union Final \union Kept
              \union (IF T.opt THEN {"nfev"} ELSE {"accept_ratio"})
Kind == [x |-> "vector", fun |-> "number", nit |-> "count", nfev |-> "count", success |-> "flag", status |-> "count",
         message |-> "text", xall |-> IF T.opt THEN "cube" ELSE "table", funall |-> IF T.opt THEN "table" ELSE "vector", accept_ratio |-> "number"]
Kinds(f) == \A k \in DOMAIN f : k \in DOMAIN Kind => (f[k] = Kind[k] \/ (k = "x" /\ f[k] = "vector"))
Init == tid \in DOMAIN Traces /\ i = 0 /\ bad = {} /\ done = FALSE
\* a callback state has the fields of the result (of an optimizer: without the verdict)
Step ==
  /\ ~done /\ i < Len(T.cbs)
  /\ i' = i + 1
  /\ bad' = bad \union Clause("stateFields", DOMAIN T.cbs[i + 1] = (DOMAIN T.res) \ Final)
                \union Clause("kinds", Kinds(T.cbs[i + 1]))
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ i = Len(T.cbs)
  /\ LET all == bad \union Clause("fields", Documented \subseteq DOMAIN T.res)
                    \union Clause("onlyWhenAsked", T.keep \/ {"xall", "funall"} \cap DOMAIN T.res = {})
                    \union Clause("kinds", Kinds(T.res))
     IN bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Len(T.cbs)
=============================================================================
