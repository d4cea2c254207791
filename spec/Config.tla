-------------------------------- MODULE Config ------------------------------
(***************************************************************************)
(* Decision table of the configurations: which calls are rejected (before  *)
(* anything is evaluated) and which run to completion.  A configuration is *)
(* a method and a set of deviations from its defaults, at most one per     *)
(* parameter; the classes are made concrete by the harness.  The machine   *)
(* is the life of one call: check everything, then evaluate.               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC, Json
CONSTANTS Methods, Depth, Emit

D(p, good, bad) == {[p |-> p, c |-> c, ok |-> TRUE] : c \in good} \union {[p |-> p, c |-> c, ok |-> FALSE] : c \in bad}
Opt == {"de", "pso", "cpso", "na", "cmaes", "vdcma"}
Slot == {"de", "pso", "cpso", "na"}
Evo == {"cmaes", "vdcma"}
Sam == {"mcmc", "hmc"}

Common == D("fun", {"object"}, {"none", "int", "string"})
  \union D("callback", {"function", "object"}, {"int", "string"})
  \union D("bounds", {"array", "tuple", "one", "int"}, {"flat", "cube", "scalar"})
  \union D("maxiter", {"one", "two"}, {})
  \union D("seed", {"zero", "none"}, {})
  \union D("return_all", {"yes", "no"}, {})
  \union D("method", {}, {"unknown"})
OfOpt(m) == IF m \notin Opt THEN {} ELSE
  D("verbosity", {"lo", "mid", "hi"}, {"below", "above"})
  \union D("workers", {"zero", "two", "all"}, {})
  \union D("backend", {"none", "threading", "loky", "mpi"}, {"unknown"})
  \union D("xtol", {"zero"}, {}) \union D("ftol", {"zero"}, {})
OfSlot(m) == IF m \notin Slot THEN {} ELSE
  D("x0", {"array", "list", "intarray"}, {"flat", "narrow", "wide", "short", "long", "cube", "scalar"})
  \union D("popsize", {"2", "3", "4", "5", "6"}, {"1", "0", "-1"})
OfVec(m) == IF m \notin (Evo \union Sam) THEN {} ELSE
  D("x0", {"array", "list", "intarray"}, {"short", "long", "matrix", "scalar"})
OfEvo(m) == IF m \notin Evo THEN {} ELSE
  D("popsize", {"2", "3", "4", "5", "6"}, {})
  \union D("sigma", {"small", "mid", "one"}, {"zero", "below"})
  \union D("muperc", {"small", "mid", "hi"}, {"zero", "below", "above"})
  \union D("constraints", {"none", "Penalize"}, {"unknown", "foreign"})
Range(p) == D(p, {"lo", "mid", "hi"}, {"below", "above"})
Own(m) ==
  CASE m = "de" -> Range("mutation") \union Range("recombination")
         \union D("strategy", {"best1bin", "rand1bin", "best2bin", "rand2bin"}, {"unknown"})
         \union D("updating", {"immediate", "deferred"}, {"unknown"})
         \union D("constraints", {"none", "Random"}, {"unknown", "foreign"})
    [] m \in {"pso", "cpso"} -> Range("inertia") \union Range("cognitivity") \union Range("sociability")
         \union D("updating", {"immediate", "deferred"}, {"unknown"})
         \union D("constraints", {"none", "Shrink"}, {"unknown", "foreign"})
         \union (IF m = "cpso" THEN Range("competitivity") \union D("competitivity", {"none"}, {}) ELSE {})
    [] m = "na" -> D("nrperc", {"small", "mid", "hi"}, {"zero", "below", "above"})
    [] m = "mcmc" -> Range("perc") \union D("stepsize", {"array", "list", "intarray"}, {"short", "long"})
         \union D("constraints", {"none", "Reject"}, {})
    [] m = "hmc" -> D("nleap", {"one", "many"}, {"zero", "below"}) \union D("stepsize", {"array", "list"}, {"short", "long"})
         \union D("jac", {"none", "function", "object"}, {"int", "string"})
         \union D("constraints", {"none", "Reject"}, {})
    [] OTHER -> {}
Table(m) == Common \union OfOpt(m) \union OfSlot(m) \union OfVec(m) \union OfEvo(m) \union Own(m)

Need == [best1bin |-> 3, rand1bin |-> 4, best2bin |-> 5, rand2bin |-> 6]
Num == [s \in {"2", "3", "4", "5", "6"} |-> CASE s = "2" -> 2 [] s = "3" -> 3 [] s = "4" -> 4 [] s = "5" -> 5 [] OTHER -> 6]
Class(S, p, default) == IF \E d \in S : d.p = p THEN (CHOOSE d \in S : d.p = p).c ELSE default
\* the DE strategies need distinct members (the default population has 8)
Enough(m, S) ==
  m # "de" \/ LET p == Class(S, "popsize", "8")  s == Class(S, "strategy", "best1bin")
              IN p \notin DOMAIN Num \/ s \notin DOMAIN Need \/ Num[p] >= Need[s]
Valid(m, S) == (\A d \in S : d.ok) /\ Enough(m, S)

VARIABLES m, S, phase, evals
vars == <<m, S, phase, evals>>
Init == m \in Methods /\ S = {} /\ phase = "open" /\ evals = 0
\* deviations are added in one canonical order of parameters (any order gives the same set)
Deviate ==
  /\ phase = "open" /\ Cardinality(S) < Depth
  /\ \E d \in Table(m) : (\A e \in S : e.p # d.p) /\ S' = S \union {d}
  /\ UNCHANGED <<m, phase, evals>>
Call ==
  /\ phase = "open"
  /\ phase' = IF Valid(m, S) THEN "running" ELSE "rejected"
  /\ IF Emit THEN PrintT("@@B " \o ToJson([m |-> m, devs |-> [k \in {d.p : d \in S} |-> Class(S, k, "")], ok |-> Valid(m, S)])) ELSE TRUE
  /\ UNCHANGED <<m, S, evals>>
Evaluate == phase = "running" /\ evals < 2 /\ evals' = evals + 1 /\ UNCHANGED <<m, S, phase>>
Return == phase = "running" /\ evals > 0 /\ phase' = "done" /\ UNCHANGED <<m, S, evals>>
Next == Deviate \/ Call \/ Evaluate \/ Return
Spec == Init /\ [][Next]_vars

NothingEvaluated == evals > 0 => Valid(m, S)
OnlyValidRuns == phase \in {"running", "done"} => Valid(m, S)
RejectedIsInvalid == phase = "rejected" => ~Valid(m, S)
\* another deviation never makes an invalid configuration valid
Monotone == [][S' # S => (Valid(m, S') => Valid(m, S))]_vars
Defaults == Valid(m, {})
=============================================================================
