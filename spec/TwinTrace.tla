------------------------------ MODULE TwinTrace ------------------------------
(***************************************************************************)
(* Lockstep comparison of two recorded runs.  A run is a sequence of       *)
(* chunks of evaluations <<position, value>>, a sequence of callbacks and  *)
(* a result; positions, values and arrays are interned over both runs, so  *)
(* equality of numbers is equality of bits (after the scaling of the case).*)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, bad, done
vars == <<tid, i, bad, done>>
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {T.P \o "." \o name}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

Init == tid \in DOMAIN Traces /\ i = 0 /\ bad = {} /\ done = FALSE

Col(ch, c) == [j \in DOMAIN ch |-> ch[j][c]]
Steps == Max(Max(Len(T.a.ev), Len(T.b.ev)), IF T.cmpcb THEN Max(Len(T.a.cb), Len(T.b.cb)) ELSE 0)

\* A run that stopped on a value tolerance may be shorter (only prefixes are compared then).
Compare(j) ==
  (IF j <= Len(T.a.ev) /\ j <= Len(T.b.ev)
   THEN LET x == T.a.ev[j]
            y == T.b.ev[j]
            n == Min(Len(x), Len(y))
        IN Clause("points", /\ SubSeq(Col(x, 1), 1, n) = SubSeq(Col(y, 1), 1, n)
                            /\ T.prefix \/ Len(x) = Len(y))
           \union Clause("values", SubSeq(Col(x, 2), 1, n) = SubSeq(Col(y, 2), 1, n))
   ELSE Clause("length", T.prefix \/ (j > Len(T.a.ev) /\ j > Len(T.b.ev))))
  \union
  (IF ~T.cmpcb THEN {}
   ELSE IF j <= Len(T.a.cb) /\ j <= Len(T.b.cb) THEN Clause("callback", T.a.cb[j] = T.b.cb[j])
   ELSE Clause("callbacks", T.prefix \/ (j > Len(T.a.cb) /\ j > Len(T.b.cb))))

Step ==
  /\ ~done /\ i < Steps
  /\ i' = i + 1
  /\ bad' = bad \union Compare(i + 1)
  /\ UNCHANGED <<tid, done>>

End ==
  /\ ~done /\ i = Steps
  /\ LET all == bad \union Clause("result", T.prefix \/ ~T.cmpres \/ T.a.res = T.b.res)
                    \union Clause("outcome", T.a.exc = T.b.exc)
     IN /\ bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i>>

Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Steps
=============================================================================
