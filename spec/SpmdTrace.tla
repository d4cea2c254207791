------------------------------- MODULE SpmdTrace -------------------------------
(***************************************************************************)
(* Recorded runs on several ranks: per rank and generation the evaluated   *)
(* positions, the sequence of collective calls, the callbacks, the result. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, g, bad, done
vars == <<tid, g, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C19." \o name}
Init == tid \in DOMAIN Traces /\ g = 0 /\ bad = {} /\ done = FALSE
R == DOMAIN T.ranks

RECURSIVE Flat(_, _)
Flat(k, r) == IF r > Len(T.ranks) THEN <<>>
              ELSE (IF k <= Len(T.ranks[r].gens) THEN T.ranks[r].gens[k] ELSE <<>>) \o Flat(k, r + 1)
Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

Gen ==
  /\ ~done /\ g < T.ngen
  /\ g' = g + 1
  /\ LET all == Flat(g + 1, 1) IN
     bad' = bad
       \union Clause("once", Len(all) = T.pop /\ (T.serial # <<>> => g + 1 <= Len(T.serial) /\ SameBag(all, T.serial[g + 1])))
       \union Clause("callbacks", \A r, s \in R : g + 1 \in DOMAIN T.ranks[r].cb /\ g + 1 \in DOMAIN T.ranks[s].cb
                                                  /\ T.ranks[r].cb[g + 1] = T.ranks[s].cb[g + 1])
       \union Clause("belongs", \A r \in R : g + 1 \in DOMAIN T.ranks[r].belongs => T.ranks[r].belongs[g + 1])
  /\ UNCHANGED <<tid, done>>

End ==
  /\ ~done /\ g = T.ngen
  /\ LET all == bad
           \union Clause("deadlock", ~T.deadlock)
           \union Clause("collectives", \A r, s \in R : T.ranks[r].coll = T.ranks[s].coll)
           \union Clause("agree", \A r, s \in R : T.ranks[r].res = T.ranks[s].res)
           \union Clause("belongs", \A r \in R : T.ranks[r].resbelongs)
           \union Clause("generations", \A r \in R : Len(T.ranks[r].gens) = T.ngen)
           \union Clause("serial", T.serial # <<>> => \A r \in R : T.ranks[r].res = T.sres /\ Len(T.serial) = T.ngen)
     IN bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, g>>
Next == Gen \/ End
Spec == Init /\ [][Next]_vars
Sane == g <= T.ngen
=============================================================================
