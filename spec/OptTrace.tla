------------------------------- MODULE OptTrace -------------------------------
(***************************************************************************)
(* Trace specification of the optimizers: every recorded run of the real   *)
(* code is replayed generation by generation on the operators of PopCore.  *)
(* The verdict is total: the set of failing clauses, each named after the  *)
(* property it belongs to.                                                 *)
(***************************************************************************)
EXTENDS PopCore, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACEFILE)

VARIABLES tid,    \* which trace
          k,      \* generations consumed
          n,      \* evaluations consumed
          slots,  \* members (personal bests)
          minv, minps, \* smallest value so far, positions that attained it
          bad, done
vars == <<tid, k, n, slots, minv, minps, bad, done>>

Inf == 1000000000
T == Traces[tid]
Clause(name, ok) == IF ok THEN {} ELSE {name}
Members(e) == [i \in DOMAIN e |-> [v |-> e[i][1], id |-> e[i][2]]]

Init ==
  /\ tid \in DOMAIN Traces
  /\ k = 0 /\ n = 0 /\ slots = <<>> /\ minv = Inf /\ minps = {}
  /\ bad = {} /\ done = FALSE

RECURSIVE AsyncAll(_, _, _)
AsyncAll(sl, tr, i) ==
  IF i > Len(sl) \/ i > Len(tr) THEN sl ELSE AsyncAll(AsyncSelect(sl, i, tr[i]), tr, i + 1)

NextSlots(tr) ==
  IF k = 0 THEN tr
  ELSE IF Len(tr) # Len(slots) THEN slots
  ELSE IF T.sync THEN SyncSelect(slots, tr) ELSE AsyncAll(slots, tr, 1)

\* Rows recorded by return_all at generation kk against the population shown.
\* With a penalty and an incomplete history the fitness is only known up to the penalty.
PenRow(kk, i, x, f) ==
  LET s == T.segs[kk] IN i \in DOMAIN s.e => s.e[i][2] = x /\ f >= s.e[i][1] /\ (s.inside[i] => f = s.e[i][1])

RowOK(kk, shown) ==
  LET xa == T.res.xa[kk]
      fa == T.res.fa[kk]
  IN /\ Len(xa) = T.nout /\ Len(fa) = T.nout
     /\ IF T.pen /\ T.segs[kk].fit = <<>>
        THEN IF T.verb0
             THEN /\ \E i \in DOMAIN T.segs[kk].e : PenRow(kk, i, xa[1], fa[1])
                  /\ T.cbk => fa[1] = T.segs[kk].cb.f
             ELSE \A i \in 1..T.nout : PenRow(kk, i, xa[i], fa[i])
        ELSE
        IF T.verb0
        THEN \E i \in DOMAIN shown : /\ shown[i].id = xa[1] /\ shown[i].v = fa[1]
                                     /\ \A j \in DOMAIN shown : shown[i].v <= shown[j].v
        ELSE \A i \in 1..T.nout : i \in DOMAIN shown => shown[i].id = xa[i] /\ shown[i].v = fa[i]

\* Fitness of generation kk: the values themselves, or with a penalty the recorded fitness.
Fit(kk) == IF T.pen THEN T.segs[kk].fit ELSE [i \in DOMAIN T.segs[kk].e |-> T.segs[kk].e[i][1]]

BestOfGen(kk, f, x) ==
  LET e == T.segs[kk].e
      fit == Fit(kk)
  IN IF fit = <<>>  \* fitness not visible (penalty, no history)
     THEN \E i \in DOMAIN e : e[i][2] = x /\ f >= e[i][1] /\ (T.segs[kk].inside[i] => f = e[i][1])
     ELSE /\ Len(fit) = Len(e)
          /\ f = MinOf({fit[i] : i \in DOMAIN fit})
          /\ \E i \in DOMAIN e : e[i][2] = x /\ fit[i] = f

PenaltyOK(kk) ==
  LET e == T.segs[kk].e
      fit == Fit(kk)
  IN T.pen /\ fit # <<>> /\ Len(fit) = Len(e) =>
       \A i \in DOMAIN e : fit[i] >= e[i][1] /\ (T.segs[kk].inside[i] => fit[i] = e[i][1])

\* cmaes, vdcma: does generation kk oblige the run to stop?
EvoMustStop(kk, b) ==
  \/ kk >= T.maxiter
  \/ b # Inf /\ b <= T.ftol
  \/ T.segs[kk].eq5 = "y"
  \/ kk > 2 /\ T.segs[kk].eq7 = "y"

Gen ==
  /\ ~done /\ k < Len(T.segs)
  /\ LET kk == k + 1
         s == T.segs[kk]
         tr == Members(s.e)
         sl == NextSlots(tr)
         m == IF s.e = <<>> THEN minv
              ELSE LET g == MinOf(Vals(tr)) IN IF g < minv THEN g ELSE minv
         mp == (IF m = minv THEN minps ELSE {}) \union {tr[i].id : i \in {j \in DOMAIN tr : tr[j].v = m}}
         shown == IF T.alg = "de" THEN sl ELSE
                  IF T.pen THEN [i \in DOMAIN tr |-> [v |-> IF s.fit = <<>> THEN tr[i].v ELSE s.fit[i], id |-> tr[i].id]]
                  ELSE tr
         last == kk = Len(T.segs)
         b == IF T.slot THEN m ELSE IF T.cbk THEN s.cb.f
              ELSE IF T.pen THEN (IF last THEN T.res.f ELSE Inf) ELSE MinOf(Vals(tr) \union {Inf})
         stop == IF T.slot THEN SlotStops(kk, m, T.ftol, T.maxiter) ELSE EvoMustStop(kk, b)
         P == IF T.slot THEN "C05" ELSE "C06"
     IN /\ slots' = sl /\ minv' = m /\ minps' = mp
        /\ n' = n + Len(s.e) /\ k' = kk
        /\ bad' = bad
             \union Clause("C03.full", Len(s.e) = T.pop)
             \union Clause("C03.args", s.ok)
             \union Clause("C04.max", kk <= T.maxiter)
             \union Clause(P \o ".late", last \/ ~stop)
             \union Clause(P \o ".early", ~last \/ stop \/ (~T.slot /\ (T.res.st < -1 \/ (T.pen /\ ~T.cbk))))
             \union (IF ~T.cbk THEN {} ELSE
                  Clause("C03.nfev", s.cb.nfev = n + Len(s.e))
                  \union Clause("C04.nit", s.cb.nit = kk)
                  \union Clause("C04.X", Len(s.cb.X) = T.pop /\
                                IF T.alg = "de"
                                THEN \A i \in 1..T.pop :
                                       \E j \in 1..kk : i \in DOMAIN T.segs[j].e /\ T.segs[j].e[i][2] = s.cb.X[i]
                                ELSE \A i \in DOMAIN s.e : i <= Len(s.cb.X) => s.cb.X[i] = s.e[i][2])
                  \union (IF T.slot THEN Clause("C01.fun", s.cb.f = m) \union Clause("C01.x", s.cb.x \in mp)
                          ELSE Clause("C02.best", BestOfGen(kk, s.cb.f, s.cb.x)))
                  \union (IF T.alg = "de" THEN Clause("C09.members", s.cb.X = [i \in DOMAIN sl |-> sl[i].id]) ELSE {})
                  \union (IF T.ret THEN Clause("C07.prefix", s.cb.rows = SubSeq(T.res.rows, 1, kk)) ELSE {}))
             \union (IF T.ret /\ kk <= Len(T.res.xa) THEN Clause("C07.row", RowOK(kk, shown)) ELSE {})
             \union (IF T.ret /\ kk <= Len(T.res.xa) /\ T.alg = "de" /\ ~T.verb0
                     THEN Clause("C09.values", \A i \in 1..T.nout : i \in DOMAIN sl /\ i \in DOMAIN T.res.fa[kk] => T.res.fa[kk][i] = sl[i].v)
                     ELSE {})
             \union Clause("C02.penalty", PenaltyOK(kk))
  /\ UNCHANGED <<tid, done>>

SlotStatusOK ==
  LET st == T.res.st
      near == T.near
  IN IF k = 1 \/ ~(minv <= T.ftol) THEN st = -1
     ELSE CASE near = "y" -> st = 0
            [] near = "n" -> st = 1
            [] OTHER -> st \in {0, 1}

EvoStatusOK ==
  LET st == T.res.st
      b == T.res.f
      s == T.segs[k]
  IN /\ st \in -8..1
     /\ st = -1 <=> k >= T.maxiter
     /\ k < T.maxiter =>
          /\ st \in {0, 1} <=> b <= T.ftol
          /\ b <= T.ftol => (st = 0 => T.near # "n") /\ (st = 1 => T.near # "y")
          /\ st = -5 => s.eq5 # "n"
          /\ st = -7 => k > 2 /\ s.eq7 # "n"

End ==
  /\ ~done /\ k = Len(T.segs)
  /\ LET r == T.res
         all == bad
           \union Clause("C03.full", T.tail = 0 /\ k > 0)
           \union Clause("C03.nfev", r.nfev = n + T.tail /\ r.nfev = r.nit * T.pop)
           \union Clause("C04.nit", r.nit = k)
           \union (IF T.slot THEN Clause("C01.fun", r.f = minv) \union Clause("C01.x", r.x \in minps)
                   ELSE Clause("C02.best", k > 0 /\ BestOfGen(k, r.f, r.x)))
           \union Clause(IF T.slot THEN "C05.status" ELSE "C06.status",
                         IF T.slot THEN SlotStatusOK ELSE k > 0 /\ EvoStatusOK)
           \union Clause(IF T.slot THEN "C05.success" ELSE "C06.success", r.succ = (r.st >= 0) /\ r.msg)
           \union (IF T.cbk /\ k > 0
                   THEN LET c == T.segs[k].cb IN
                        Clause("C04.last", c.f = r.f /\ c.x = r.x /\ c.nit = r.nit /\ c.nfev = r.nfev
                                           /\ (T.ret => c.rows = r.rows))
                   ELSE {})
           \union (IF T.ret THEN Clause("C07.shape", r.xshape = <<k, T.nout, T.ndim>> /\ r.fshape = <<k, T.nout>>)
                   ELSE Clause("C07.shape", r.xshape = <<>> /\ r.fshape = <<>>))
     IN /\ bad' = all
        /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> all]))
  /\ done' = TRUE
  /\ UNCHANGED <<tid, k, n, slots, minv, minps>>

Next == Gen \/ End
Spec == Init /\ [][Next]_vars

\* Consistency of the specification itself on the observed runs.
Sane == /\ k <= Len(T.segs)
        /\ (k > 0 /\ bad = {}) => n = k * T.pop
=============================================================================
