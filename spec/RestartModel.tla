---------------------------- MODULE RestartModel ----------------------------
(***************************************************************************)
(* All value scripts over Levels, all non-increasing numbers of restarts   *)
(* (at most Pop-1).  Checked: the best value found is never lost although  *)
(* personal bests are forgotten, the best particle is never repositioned.  *)
(* Behaviours are emitted (value scripts) and replayed in the real code.   *)
(***************************************************************************)
EXTENDS Restart, TLC, Json

CONSTANTS Pop, MaxIter, Levels, Sync, Emit
VARIABLES it, pv, gb, num, script, moved, ph
vars == <<it, pv, gb, num, script, moved, ph>>
Lvl(m) == m.v

Init ==
  /\ it = 1
  /\ \E vs \in [1..Pop -> Levels] :
       /\ script = <<vs>>
       /\ pv = [i \in 1..Pop |-> [v |-> vs[i], id |-> i]]
  /\ gb = MinOf(Vals(pv)) /\ num = Pop - 1 /\ moved = <<>> /\ ph = "eval"

\* Iteration it+1: every particle is evaluated again where it stands.
Eval ==
  /\ ph = "eval" /\ it < MaxIter
  /\ \E vs \in [1..Pop -> Levels] :
       LET new == [i \in 1..Pop |-> IF (IF Sync THEN vs[i] < pv[i].v ELSE vs[i] <= pv[i].v)
                                    THEN [v |-> vs[i], id |-> it * Pop + i] ELSE pv[i]]
       IN pv' = new /\ gb' = MinOf(Vals(new)) /\ script' = Append(script, vs)
  /\ it' = it + 1 /\ ph' = "restart" /\ UNCHANGED <<num, moved>>
DoRestart ==
  /\ ph = "restart" /\ it < MaxIter
  /\ \E n \in 0..num : \E S \in SUBSET (1..Pop) :
       /\ Cardinality(S) = n /\ IsWorst(S, pv)
       /\ num' = n /\ pv' = Forget(S, pv) /\ moved' = Append(moved, S)
  /\ ph' = "eval" /\ UNCHANGED <<it, gb, script>>
Next == Eval \/ DoRestart
Spec == Init /\ [][Next]_vars

Kept == MinOf(Vals(pv)) = gb
NeverAll == \A k \in DOMAIN moved : Cardinality(moved[k]) < Pop
NonIncreasing == \A k \in DOMAIN moved : k > 1 => Cardinality(moved[k]) <= Cardinality(moved[k - 1])
Monotone == [][gb' <= gb]_vars
BestStays == [][\A i \in DOMAIN pv : (pv[i].v = gb /\ pv'[i].v = INF) => \E j \in DOMAIN pv : pv'[j].v = gb]_vars
Emitted == (Emit /\ ph = "restart" /\ it = MaxIter /\ \A k \in DOMAIN moved : moved[k] = {}) =>
  PrintT("@@B " \o ToJson([script |-> script]))
=============================================================================
