----------------------------- MODULE CountTrace -----------------------------
(***************************************************************************)
(* C03 where the order of the calls is not that of the candidates: the hmc *)
(* sampler (calls for numerical gradients included) and generations that   *)
(* are evaluated by several threads.                                       *)
(*  T.full: calls that belong to a callback (0: any number)                *)
(*  T.ev[i] = [calls, ok, nfev, d]: `calls` calls of the objective, then a *)
(*    report (callback or result) of `nfev`; ok: all of these calls were   *)
(*    fun(x, *args) with a 1-D array of the right length                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, made, reported, bad, done
vars == <<tid, i, made, reported, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {name}

Init == tid \in DOMAIN Traces /\ i = 0 /\ made = 0 /\ reported = 0 /\ bad = {} /\ done = FALSE

\* The user's function runs, then the count is shown to the user
Report ==
  /\ ~done /\ i < Len(T.ev)
  /\ LET e == T.ev[i + 1] IN
       /\ made' = made + e.calls
       /\ reported' = e.nfev
       /\ bad' = bad \union Clause("C03.args", e.ok) \union Clause("C03.nfev", e.nfev = made')
                  \union Clause("C03.full", T.full = 0 \/ (/\ e.calls = (IF i + 1 < Len(T.ev) THEN T.full ELSE 0)
                                                         /\ made' = e.nit * T.full))
  /\ i' = i + 1 /\ UNCHANGED <<tid, done>>

End ==
  /\ ~done /\ i = Len(T.ev)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i, made, reported, bad>>
Next == Report \/ End
Spec == Init /\ [][Next]_vars
\* what is reported is what was made, unless a verdict says otherwise
Sane == "C03.nfev" \in bad \/ reported = made
=============================================================================
