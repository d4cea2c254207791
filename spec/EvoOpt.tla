-------------------------------- MODULE EvoOpt --------------------------------
(***************************************************************************)
(* Design model of the evolution strategies cmaes and vdcma, seen through  *)
(* the values of the objective: every generation is a fresh sample, the    *)
(* best point of the current generation is reported, and the termination   *)
(* tests are made in a fixed order of priority.  Conditions on the         *)
(* internal distribution (step size, covariance, mean) are not determined  *)
(* by values: `internal` is the (nondeterministic) outcome of those tests. *)
(***************************************************************************)
EXTENDS PopCore, TLC, Json

CONSTANTS Pop, MaxIter,
          Levels,    \* values; two different levels are further apart than any tolerance
          Ftol, XtolHuge,
          Window,    \* number of generations of the EqualFunValues test
          Internals, \* internal stop codes that may fire: subset of {-2,-3,-4,-6,-8}
          Emit

VARIABLES gen, bests, n, it, status, phase, log, all
vars == <<gen, bests, n, it, status, phase, log, all>>

Init == gen = <<>> /\ bests = <<>> /\ n = 0 /\ it = 0 /\ status = 9 /\ phase = "gen" /\ log = <<>> /\ all = {}

Eval(v) ==
  /\ phase = "gen" /\ Len(gen) < Pop
  /\ n' = n + 1
  /\ gen' = Append(gen, [v |-> v, id |-> n + 1])
  /\ all' = all \union {v}
  /\ UNCHANGED <<bests, it, status, phase, log>>

Flat(S) == Cardinality(S) = 1
LastOf(s, k) == {s[j] : j \in (Len(s) - k + 1)..Len(s)}

EqualFun(k, bs) == k >= Window /\ Flat(LastOf(bs, Window))
TolFun(k, g, bs) == k > 2 /\ Flat(Vals(g) \union LastOf(bs, Len(bs)))

\* near: the mean moved by at most xtol;  internal: outcome of the tests on the
\* distribution that precede (early) resp. follow the tests on values.
Outcome(k, g, bs, near, internal) ==
  LET b == bs[Len(bs)] IN
  IF k >= MaxIter THEN -1
  ELSE IF near /\ b <= Ftol THEN 0
  ELSE IF b <= Ftol THEN 1
  ELSE IF internal \in {-2, -3, -4} THEN internal
  ELSE IF EqualFun(k, bs) THEN -5
  ELSE IF internal = -6 THEN -6
  ELSE IF TolFun(k, g, bs) THEN -7
  ELSE IF internal = -8 THEN -8
  ELSE 9

EndGen ==
  /\ phase = "gen" /\ Len(gen) = Pop
  /\ \E internal \in Internals \union {9} :
     LET b == gen[ArgMin(gen)]
         bs == Append(bests, b.v)
         s == Outcome(it + 1, gen, bs, XtolHuge, internal)
     IN /\ bests' = bs
        /\ it' = it + 1
        /\ status' = s
        /\ phase' = IF s = 9 THEN "gen" ELSE "done"
        /\ log' = Append(log, [nit |-> it + 1, nfev |-> n, fun |-> b.v, x |-> b.id, status |-> s,
                               ids |-> [i \in 1..Pop |-> gen[i].id],
                               vals |-> [i \in 1..Pop |-> gen[i].v],
                               raw |-> [i \in 1..Pop |-> gen[i].v]])
  /\ gen' = <<>>
  /\ UNCHANGED <<n, all>>

Done == phase = "done" /\ UNCHANGED vars
Next == (\E v \in Levels : Eval(v)) \/ EndGen \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
Reported == log[Len(log)]
\* C02
BestOfGeneration ==
  \A k \in 1..Len(log) :
    /\ log[k].fun = MinOf({log[k].raw[i] : i \in 1..Pop})
    /\ \E i \in 1..Pop : log[k].ids[i] = log[k].x /\ log[k].raw[i] = log[k].fun
Counted == \A k \in 1..Len(log) : log[k].nfev = k * Pop
Bounded == it <= MaxIter /\ Len(log) = it
\* C06
True01 == status \in {0, 1} => Reported.fun <= Ftol
OnlyThen == /\ status = -1 => it = MaxIter
            /\ it = MaxIter => status = -1
NoMiss == \A k \in 1..(Len(log) - 1) :
            /\ log[k].fun > Ftol
            /\ ~ (k >= Window /\ \A j \in (k - Window + 1)..k : log[j].fun = log[k].fun)
            /\ ~ (k > 2 /\ \A j \in 1..k : log[j].fun = log[1].fun /\ \A i \in 1..Pop : log[k].raw[i] = log[1].fun)
Truthful ==
  /\ status = -5 => /\ it >= Window
                    /\ \A j \in (it - Window + 1)..it : log[j].fun = log[it].fun
  /\ status = -7 => /\ it > 2
                    /\ \A j \in 1..it : log[j].fun = log[it].fun
                    /\ \A i \in 1..Pop : Reported.raw[i] = Reported.fun
Terminates == <>(phase = "done")

EmitBehaviour ==
  Emit /\ phase = "done" =>
    PrintT("@@B " \o ToJson([alg |-> "evo", pop |-> Pop, maxiter |-> MaxIter,
                             ftol |-> Ftol, xhuge |-> XtolHuge, log |-> log]))
=============================================================================
