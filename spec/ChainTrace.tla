----------------------------- MODULE ChainTrace -----------------------------
(***************************************************************************)
(* C22, C23 and C24 on recorded runs.  Points are numbered, values ranked. *)
(*  T.prop, T.kind = "run" | "stat"                                        *)
(*  T.s[i] (sample i): x point, f rank                                     *)
(*  T.p[i] (proposal of sample i+1): ev number of evaluated proposals,     *)
(*    x point or 0, v rank or 0, in (is it known to be inside),            *)
(*    C22: ch coordinates that differ from the previous sample,            *)
(*         must/never forced by the size of the difference                 *)
(*    C23: in would the trajectory have ended inside the box,             *)
(*         res leapfrog residuals (thousandths of the tolerance), steps    *)
(*         number of position steps, jac are the gradients right, de sign  *)
(*         of the energy difference: -1 must, 1 cannot, 0 either           *)
(*  T.cb[i]: nit, x, f (best), X (point), rows, lead (leading rows equal), *)
(*    acc (accept_ratio*nit)                                               *)
(*  T.res: x, f, rows, acc (accept_ratio*maxiter), all (xall there?)       *)
(***************************************************************************)
EXTENDS Chain, TLC, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACEFILE)
VARIABLES tid, i, best, nacc, bad, done
vars == <<tid, i, best, nacc, bad, done>>
T == Traces[tid]
Set(s) == {s[k] : k \in DOMAIN s}
Clause(name, ok) == IF ok THEN {} ELSE {T.prop \o "." \o name}
All(s) == \A j \in DOMAIN s : s[j] <= 7000 /\ s[j] >= -7000

Init == tid \in DOMAIN Traces /\ i = 0 /\ best = 0 /\ nacc = 0 /\ bad = {} /\ done = FALSE

Callback(k, b, n) ==
  IF ~T.hascb \/ k > Len(T.cb) THEN {} ELSE   \* (too few: callbackCount)
  LET c == T.cb[k] IN
    Clause("callbackNit", c.nit = k)
    \union Clause("callbackSample", c.X = T.s[k].x)
    \union Clause("callbackBest", c.f = b /\ \E j \in 1..k : T.s[j].x = c.x /\ T.s[j].f = c.f)
    \union Clause("callbackRatio", k = 1 \/ c.acc = n)
    \union Clause("callbackAll", IF T.all THEN c.rows = k /\ c.lead = k ELSE c.rows = 0)

First ==
  /\ ~done /\ T.kind = "run" /\ i = 0
  /\ best' = T.s[1].f
  /\ bad' = bad \union (IF T.prop = "C24" THEN Callback(1, T.s[1].f, 0) ELSE {})
  /\ i' = 1 /\ UNCHANGED <<tid, nacc, done>>

Step ==
  /\ ~done /\ T.kind = "run" /\ i > 0 /\ i < Len(T.s)
  /\ LET a == T.s[i]  b == T.s[i + 1]
         p == IF T.prop = "C24" THEN [x |-> 0] ELSE T.p[i]
         acc == a.x # b.x
         nb == Min(best, b.f)
     IN
     /\ best' = nb
     /\ nacc' = nacc + (IF acc THEN 1 ELSE 0)
     /\ bad' = bad \union
          (CASE T.prop = "C22" ->
                  Clause("proposal", ~acc \/ (b.x = p.x /\ b.f = p.v))
                  \union Clause("repeat", acc \/ b.f = a.f)
                  \union Clause("evaluated", p.x # 0 \/ T.reject)
                  \union Clause("block", p.x = 0 \/ Set(p.ch) \subseteq Block(i, T.dim, T.size))
                  \union Clause("whole", p.x = 0 \/ (Block(i, T.dim, T.size) \ Set(T.fixed)) \subseteq Set(p.ch))
                  \union Clause("accept", p.x = 0 \/ p.x = a.x \/ ~Must(p.v, a.f) \/ acc)
                  \union Clause("reject", ~(p.never) \/ ~acc)
             [] T.prop = "C23" ->
                  Clause("proposal", ~acc \/ (b.x = p.x /\ b.f = p.v))
                  \union Clause("repeat", acc \/ b.f = a.f)
                  \union Clause("evaluated", p.x # 0 \/ (T.reject /\ ~p.in))
                  \union Clause("steps", p.steps = T.nleap + 1 \/ (p.x = 0 /\ ~acc /\ p.steps <= T.nleap + 1))
                  \union Clause("leapfrog", \A k \in DOMAIN p.res : p.res[k] <= 1000)
                  \union Clause("gradient", p.jac)
                  \union Clause("accept", p.x = 0 \/ p.de # -1 \/ acc)
                  \union Clause("reject", p.x = 0 \/ p.de # 1 \/ ~acc)
             [] OTHER ->
                  Callback(i + 1, nb, nacc'))
  /\ i' = i + 1 /\ UNCHANGED <<tid, done>>

Last ==
  IF T.prop # "C24" \/ T.kind # "run" THEN {} ELSE
    Clause("length", Len(T.s) = T.maxiter /\ (IF T.all THEN T.res.rows = T.maxiter ELSE T.res.rows = 0))
    \union Clause("values", \A k \in DOMAIN T.s : T.s[k].ok)
    \union Clause("best", T.res.f = best /\ \E j \in DOMAIN T.s : T.s[j].x = T.res.x /\ T.s[j].f = best)
    \union Clause("acceptRatio", T.res.acc = nacc)
    \union Clause("callbackCount", ~T.hascb \/ Len(T.cb) = T.maxiter)
    \union Clause("nit", T.res.nit = T.maxiter)

Stat ==
  IF T.kind # "stat" THEN {} ELSE
    Clause("deviate", All(T.moments)) \union Clause("independent", All(T.cross)) \union Clause("probability", All(T.prob))

End ==
  /\ ~done /\ (T.kind = "stat" \/ i = Len(T.s))
  /\ bad' = bad \union Last \union Stat
  /\ PrintT("@@END" \o ToJson([tid |-> T.tid, bad |-> bad']))
  /\ done' = TRUE /\ UNCHANGED <<tid, i, best, nacc>>
Next == First \/ Step \/ End
Spec == Init /\ [][Next]_vars
Sane == nacc <= i
=============================================================================
