---------------------------- MODULE ScheduleModel ---------------------------
(***************************************************************************)
(* Every restart schedule: swarms of P particles, M iterations, any        *)
(* competitivity of Gs (hundredths), every way of being contracted or not  *)
(* after an iteration, E any increasing function of Z with values in Es    *)
(* (a grid: the law is checked for all of them, exp is one).               *)
(* Checked: the best particle stays, nobody moves unless collapsed, the    *)
(* number never increases while the swarm stays collapsed, and never       *)
(* decreases with competitivity; nothing happens around iteration 1 and    *)
(* after the last.  Each collapse scenario is emitted and replayed.        *)
(***************************************************************************)
EXTENDS Schedule, TLC, Json

CONSTANTS Ps, M, Gs, Es, Emit
VARIABLES p, g, E, k, coll, num
vars == <<p, g, E, k, coll, num>>
Zs == {ZNum(i, M, h) : i \in 1..M, h \in Gs}
\* Increasing functions of Z, one breakpoint per element of Es (Z up to 200 M in steps).
Fun(bp) == [z \in Zs |-> Cardinality({b \in bp : b <= z})]
Sorted == CHOOSE s \in [1..Cardinality(Es) -> Es] : \A i, j \in DOMAIN s : i < j => s[i] < s[j]

Init ==
  /\ p \in Ps /\ g \in Gs
  /\ E \in {[z \in Zs |-> Sorted[1 + Cardinality({b \in bp : b <= z})]] : bp \in {B \in SUBSET Zs : Cardinality(B) = Cardinality(Es) - 1}}
  /\ k = 0 /\ coll = <<>> /\ num = <<>>
Step ==
  /\ k < M /\ k' = k + 1
  /\ \E c \in {"y", "n"} : LET e == E[ZNum(k + 1, M, g)] IN
       \E n \in Allowed(k + 1, M, p, e, e, c) : coll' = Append(coll, c) /\ num' = Append(num, n)
  /\ UNCHANGED <<p, g, E>>
Next == Step
Spec == Init /\ [][Next]_vars

BestStays == \A i \in DOMAIN num : num[i] < p
OnlyCollapsed == \A i \in DOMAIN num : coll[i] = "n" => num[i] = 0
Ends == \A i \in DOMAIN num : (i = 1 \/ i = M) => num[i] = 0
NonIncreasing == \A i, j \in DOMAIN num : (i < j /\ i > 1 /\ coll[i] = "y") => num[j] <= num[i]
Competitive == \A i \in DOMAIN num, h \in Gs :
  (h >= g /\ num[i] > 0) => Number(p, E[ZNum(i, M, h)]) >= num[i]
Emitted == (Emit /\ k = M) => PrintT("@@B " \o ToJson([p |-> p, g |-> g, m |-> M, coll |-> coll]))
=============================================================================
