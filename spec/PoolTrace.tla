------------------------------- MODULE PoolTrace -------------------------------
(***************************************************************************)
(* Recorded parallel runs: events S (a worker starts a candidate), F (it   *)
(* has its value), C (callback / next generation), with the positions of   *)
(* the serial deferred run of the same seed.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, g, bad, done
vars == <<tid, g, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {"C18." \o name}
Init == tid \in DOMAIN Traces /\ g = 0 /\ bad = {} /\ done = FALSE

Count(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in DOMAIN s : Count(s, s[i]) = Count(t, s[i])

RECURSIVE MaxRunning(_, _, _, _)
MaxRunning(ev, i, cur, mx) ==
  IF i > Len(ev) THEN mx
  ELSE LET c == cur + (IF ev[i][1] = "S" THEN 1 ELSE -1)
       IN MaxRunning(ev, i + 1, c, IF c > mx THEN c ELSE mx)

Gen ==
  /\ ~done /\ g < Len(T.gens)
  /\ g' = g + 1
  /\ LET s == T.gens[g + 1]
         st == SelectSeq(s.ev, LAMBDA e : e[1] = "S")
         fi == SelectSeq(s.ev, LAMBDA e : e[1] = "F")
         pos(q) == [i \in DOMAIN q |-> q[i][2]]
     IN bad' = bad
          \union Clause("once", SameBag(pos(st), s.serial) /\ SameBag(pos(fi), s.serial))
          \union Clause("workers", T.w > 0 => MaxRunning(s.ev, 1, 0, 0) <= T.w)
  /\ UNCHANGED <<tid, done>>

End == /\ ~done /\ g = Len(T.gens)
       /\ LET all == bad \union Clause("generations", T.ngen = Len(T.gens))
          IN bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
       /\ done' = TRUE /\ UNCHANGED <<tid, g>>
Next == Gen \/ End
Spec == Init /\ [][Next]_vars
Sane == g <= Len(T.gens)
=============================================================================
