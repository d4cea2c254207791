-------------------------------- MODULE Feas --------------------------------
(***************************************************************************)
(* Constraint handling on a lattice.  A coordinate is an integer, the box  *)
(* is 0..W in every coordinate.  The raw move leaves the box freely; what  *)
(* is given to the objective is the handled move.  C08: the handled move   *)
(* is inside whatever the raw move was, and handling does not freeze.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS W, Raw, Mode      \* Mode: "Random" "Shrink" "Penalize" "Reject"

VARIABLES x, y, ev          \* current point <<a, b>>, raw target, evaluated point or <<>>
vars == <<x, y, ev>>

In(p) == \A j \in DOMAIN p : p[j] >= 0 /\ p[j] <= W
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* Shrink on rationals: the common factor t = n/m in [0,1] is the largest with x + t*(y-x) inside.
\* The factor of one coordinate crossing a face is (face - x)/(y - x).
Num(j) == IF y[j] > W THEN W - x[j] ELSE IF y[j] < 0 THEN x[j] ELSE 1
Den(j) == IF y[j] > W THEN y[j] - x[j] ELSE IF y[j] < 0 THEN x[j] - y[j] ELSE 1
Tight == CHOOSE j \in DOMAIN x : \A k \in DOMAIN x : Num(j) * Den(k) <= Num(k) * Den(j)
\* handled point times Den(Tight), to stay in the integers
Shrunk == [j \in DOMAIN x |-> x[j] * Den(Tight) + Num(Tight) * (y[j] - x[j])]

Init == x \in [1..2 -> 0..W] /\ y = x /\ ev = x

Move ==
  /\ y' \in [1..2 -> Raw]
  /\ UNCHANGED <<x, ev>> /\ ev = x /\ y = x

Handle ==
  /\ y /= x
  /\ \/ /\ Mode = "Random"
        /\ \E p \in [1..2 -> 0..W] :
             /\ \A j \in DOMAIN x : (y[j] >= 0 /\ y[j] <= W) => p[j] = y[j]
             /\ ev' = p
     \/ /\ Mode = "Penalize"
        /\ ev' = [j \in DOMAIN x |-> Max(0, Min(W, y[j]))]
     \/ /\ Mode = "Reject"
        /\ ev' = IF In(y) THEN y ELSE <<>>
     \/ /\ Mode = "Shrink" /\ ev' = x
  /\ UNCHANGED <<x, y>>

Next == Move \/ (Handle /\ ev = x)
Spec == Init /\ [][Next]_vars

Inside == IF Mode = "Shrink"
          THEN \A j \in DOMAIN x : Shrunk[j] >= 0 /\ Shrunk[j] <= W * Den(Tight)
          ELSE ev = <<>> \/ In(ev)
\* the factor lies in [0,1], is 1 for a feasible target, and otherwise stops on a face
Factor == Mode = "Shrink" =>
  /\ Num(Tight) >= 0 /\ Num(Tight) <= Den(Tight)
  /\ In(y) => Num(Tight) = Den(Tight)
  /\ ~In(y) => \E j \in DOMAIN x : Shrunk[j] \in {0, W * Den(Tight)}
\* a feasible move is what gets evaluated
NotFrozen == [][(Mode # "Shrink" /\ y /= x /\ In(y) /\ ev' /= ev) => ev' = y]_vars
=============================================================================
