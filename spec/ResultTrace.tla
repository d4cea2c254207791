----------------------------- MODULE ResultTrace ----------------------------
(***************************************************************************)
(* C27 on recorded sequences.  Each step: o (operation), failed, and what  *)
(* was observed afterwards: keys (list), items, attrs (<<key, value>>),    *)
(* dir, missing (does reading a missing key fail the right way), shown     *)
(* (keys repr() shows with their value), hid (keys repr() must not show    *)
(* but does), repr (did repr() return a string), copy (do copies agree)    *)
(***************************************************************************)
EXTENDS ResultObj, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, n, d, bad, done
vars == <<tid, n, d, bad, done>>
T == Traces[tid]
Set(s) == {s[i] : i \in DOMAIN s}
Clause(name, ok) == IF ok THEN {} ELSE {"C27." \o name}
Init == tid \in DOMAIN Traces /\ n = 0 /\ bad = {} /\ done = FALSE /\ d = Set(Traces[tid].start)
Step ==
  /\ ~done /\ n < Len(T.steps)
  /\ LET s == T.steps[n + 1]
         e == After(d, s.o)
     IN /\ d' = e
        /\ bad' = bad \union Clause("error", s.failed = Fails(d, s.o))
             \union Clause("items", Set(s.items) = e /\ Len(s.items) = Cardinality(e))
             \union Clause("attributes", Set(s.attrs) = e)
             \union Clause("dir", Set(s.dir) = Keys(e) /\ Len(s.dir) = Cardinality(Keys(e)))
             \union Clause("missing", s.missing)
             \union Clause("repr", s.repr /\ Set(s.shown) = Shown(e) /\ s.hid = 0)
             \union Clause("copy", s.copy)
  /\ n' = n + 1 /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ n = Len(T.steps)
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad]))
  /\ done' = TRUE /\ UNCHANGED <<tid, n, d, bad>>
Spec == Init /\ [][Step \/ End]_vars
Sane == n <= Len(T.steps)
=============================================================================
