------------------------------ MODULE DrawTrace -----------------------------
(***************************************************************************)
(* C35: counts of the outcomes of random choices observed in the real code *)
(* against the weights of Draws.  One trace is one experiment:             *)
(*  T.tables[i] = [name, q (kind of choice), c (counts)]                   *)
(*  T.wrong     names of what should never happen, seen                    *)
(* A count may differ from its mean by six standard deviations and six.    *)
(***************************************************************************)
EXTENDS Draws, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, bad, done
vars == <<tid, i, bad, done>>
T == Traces[tid]
RECURSIVE Root(_, _, _)
Root(v, lo, hi) == IF hi - lo <= 1 THEN lo ELSE LET m == (lo + hi) \div 2 IN IF m * m <= v THEN Root(v, m, hi) ELSE Root(v, lo, m)
Sqrt(v) == Root(v, 0, 46340)
Abs(x) == IF x < 0 THEN -x ELSE x
Init == tid \in DOMAIN Traces /\ i = 0 /\ bad = {} /\ done = FALSE
\* n trials, weight w of W: |c - n w / W| <= 6 sqrt(n w (W - w)) / W + 6
Ok(q, c, n, W, cell) ==
  LET w == Weight(q, cell)
      mean == ((n \div W) * w) + (((n % W) * w) \div W)
      var == ((mean + 1) \div W) * (W - w) + (((mean + 1) % W) * (W - w)) \div W
  IN IF w = 0 THEN c = 0 ELSE IF w = W THEN c = n ELSE Abs(c - mean) <= 6 * (Sqrt(var) + 1) + 6
Step ==
  /\ ~done /\ i < Len(T.tables)
  /\ i' = i + 1
  /\ LET t == T.tables[i + 1]
         n == SumTo(t.c, Len(t.c))
         W == Total(t.q)
     IN bad' = bad \union (IF Len(t.c) = Cells(t.q) /\ \A c \in 1..Len(t.c) : Ok(t.q, t.c[c], n, W, c) THEN {} ELSE {"C35." \o t.name})
  /\ UNCHANGED <<tid, done>>
End ==
  /\ ~done /\ i = Len(T.tables)
  /\ LET all == bad \union {"C35." \o w : w \in {T.wrong[k] : k \in DOMAIN T.wrong}}
     IN bad' = all /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE /\ UNCHANGED <<tid, i>>
Next == Step \/ End
Spec == Init /\ [][Next]_vars
Sane == i <= Len(T.tables)
=============================================================================
