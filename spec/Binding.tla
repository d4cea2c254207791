------------------------------- MODULE Binding ------------------------------
(***************************************************************************)
(* How a call becomes a configuration.  The documented parameters of every *)
(* method, in order, with their defaults; a caller passes a prefix of them *)
(* by position, others by name (in any order) or in the options dictionary *)
(* of minimize()/sample(), and leaves the rest out.  Whatever the way, the *)
(* configuration that runs maps every parameter to what was passed for it, *)
(* and to its documented default when nothing was.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Methods, Emit

S(p, d) == [p |-> p, d |-> d]
Head4 == <<S("x0", "None"), S("args", "()"), S("maxiter", "100")>>
Pop == <<S("popsize", "10")>>
Tol == <<S("seed", "None"), S("xtol", "1e-8"), S("ftol", "1e-8")>>
Con == <<S("constraints", "None")>>
Upd == <<S("updating", "'immediate'")>>
Par == <<S("workers", "1"), S("backend", "None")>>
Ret == <<S("return_all", "False"), S("verbosity", "1.0")>>
Cb == <<S("callback", "None")>>
Swarm == <<S("inertia", "0.7298"), S("cognitivity", "1.49618"), S("sociability", "1.49618")>>
Evo == Head4 \o Pop \o <<S("sigma", "0.1"), S("muperc", "0.5")>> \o Tol \o Con \o Par \o Ret \o Cb
Params(m) ==
  CASE m = "de" -> Head4 \o Pop \o <<S("mutation", "0.5"), S("recombination", "0.9"), S("strategy", "'best1bin'")>> \o Tol \o Con \o Upd \o Par \o Ret \o Cb
    [] m = "pso" -> Head4 \o Pop \o Swarm \o Tol \o Con \o Upd \o Par \o Ret \o Cb
    [] m = "cpso" -> Head4 \o Pop \o Swarm \o <<S("competitivity", "1.0")>> \o Tol \o Con \o Upd \o Par \o Ret \o Cb
    [] m = "na" -> Head4 \o Pop \o <<S("nrperc", "0.5")>> \o Tol \o Par \o Ret \o Cb
    [] m \in {"cmaes", "vdcma"} -> Evo
    [] m = "mcmc" -> Head4 \o <<S("stepsize", "0.1"), S("perc", "1.0"), S("seed", "None")>> \o Con \o <<S("return_all", "True")>> \o Cb
    [] OTHER -> Head4 \o <<S("nleap", "10"), S("stepsize", "0.01"), S("seed", "None"), S("jac", "None"), S("finite_diff_abs_step", "0.0001")>>
                \o Con \o <<S("return_all", "True")>> \o Cb
Names(m) == {Params(m)[i].p : i \in DOMAIN Params(m)}
Default(m, p) == (CHOOSE e \in {Params(m)[i] : i \in DOMAIN Params(m)} : e.p = p).d
\* the parameters that minimize() and sample() take themselves
Own == {"x0", "args", "callback"}

VARIABLES m, entry, npos, omit, profile, phase, eff, todo
vars == <<m, entry, npos, omit, profile, phase, eff, todo>>
None == [none |-> TRUE]
\* what the caller passes for p
Passed(p) == IF profile = "defaults" THEN Default(m, p) ELSE "other " \o p

Init ==
  /\ m \in Methods
  /\ entry \in {"direct", "generic", "implied"}
  /\ profile \in {"defaults", "others"}
  /\ npos \in 0..Len(Params(m))
  \* either a few arguments are left out (the rest goes by name) or everything after the prefix is
  /\ LET rest == {Params(m)[i].p : i \in (npos + 1)..Len(Params(m))}
     IN omit \in (IF npos = 0 THEN {{}, rest} \union {{a, b} : a \in rest, b \in rest} ELSE {{}, rest})
  /\ entry = "direct" \/ npos = 0
  \* only the default methods may be left unnamed
  /\ entry = "implied" => m \in {"de", "mcmc"}
  /\ phase = "position" /\ eff = [p \in {} |-> ""] /\ todo = 1
Bind(p, v) == [q \in DOMAIN eff \union {p} |-> IF q = p THEN v ELSE eff[q]]
ByPosition ==
  /\ phase = "position"
  /\ IF todo <= npos THEN /\ eff' = Bind(Params(m)[todo].p, Passed(Params(m)[todo].p)) /\ todo' = todo + 1 /\ UNCHANGED phase
     ELSE phase' = "name" /\ UNCHANGED <<eff, todo>>
  /\ UNCHANGED <<m, entry, npos, omit, profile>>
\* one representative order; NameOrder checks that another one gives the same
ByName ==
  /\ phase = "name"
  /\ LET left == {p \in Names(m) : p \notin DOMAIN eff /\ p \notin omit}
     IN eff' = [q \in DOMAIN eff \union left |-> IF q \in left THEN Passed(q) ELSE eff[q]]
  /\ phase' = "default" /\ UNCHANGED <<m, entry, npos, omit, profile, todo>>
ByDefault ==
  /\ phase = "default"
  /\ eff' = [q \in Names(m) |-> IF q \in DOMAIN eff THEN eff[q] ELSE Default(m, q)]
  /\ phase' = "bound"
  /\ IF Emit THEN PrintT("@@B " \o ToJson([m |-> m, entry |-> entry, pos |-> [i \in 1..npos |-> Params(m)[i].p], omit |-> omit, profile |-> profile,
                                           eff |-> eff'])) ELSE TRUE
  /\ UNCHANGED <<m, entry, npos, omit, profile, todo>>
Next == ByPosition \/ ByName \/ ByDefault
Spec == Init /\ [][Next]_vars

Bound == phase = "bound" => /\ DOMAIN eff = Names(m)
                            /\ \A p \in Names(m) : eff[p] = IF p \in omit THEN Default(m, p) ELSE Passed(p)
\* giving the defaults is the same as leaving them out
Neutral == phase = "bound" /\ profile = "defaults" => \A p \in Names(m) : eff[p] = Default(m, p)
Distinct == \A i, j \in DOMAIN Params(m) : i # j => Params(m)[i].p # Params(m)[j].p
Stable == [][\A q \in DOMAIN eff : eff'[q] = eff[q]]_vars
=============================================================================
