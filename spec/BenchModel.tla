----------------------------- MODULE BenchModel -----------------------------
(* All lattice points; the symmetries and minima hold of the formulas. *)
EXTENDS Bench, TLC, Json
CONSTANTS Dim, Span, Stride, Emit
VARIABLES k, done
vars == <<k, done>>
Coords == {Stride * c : c \in -Span..Span}
Init == k = <<>> /\ done = FALSE
Grow == Len(k) < Dim /\ \E c \in Coords : k' = Append(k, c) /\ UNCHANGED done
Out == /\ Len(k) = Dim /\ ~done /\ done' = TRUE /\ UNCHANGED k
       /\ IF Emit THEN PrintT("@@B " \o ToJson([k |-> k, p |-> Parts(k)])) ELSE TRUE
Spec == Init /\ [][Grow \/ Out]_vars
Full == Len(k) = Dim /\ Dim > 0
Zero == [i \in 1..Dim |-> 0]
One == [i \in 1..Dim |-> 8]
\* non-negative, zero exactly at the minimiser
NonNegative == Full => /\ Sq(k) >= 0 /\ Quartic(k) >= 0 /\ RosA(k) + RosB(k) >= 0 /\ CosGap(k) >= 0
                       /\ Sty(k) + 2 * 4096 * 39 * Dim + 2 * 681 * Dim >= 0
                       /\ Abs(GriSign(k, Dim)) <= 1
OnlyThere == Full => /\ (Sq(k) = 0) = (k = Zero) /\ (Quartic(k) = 0) = (k = Zero)
                     /\ (Dim > 1 => (RosA(k) + RosB(k) = 0) = (k = One))
\* order and signs
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Flip(s) == [i \in DOMAIN s |-> -s[i]]
Order == Full => LET r == Reverse(k) IN Sq(r) = Sq(k) /\ CA(r) = CA(k) /\ CB(r) = CB(k) /\ Sty(r) = Sty(k)
Signs == Full => LET r == Flip(k) IN Sq(r) = Sq(k) /\ CA(r) = CA(k) /\ CB(r) = CB(k) /\ Quartic(r) = Quartic(k)
                                     /\ GriS(r) = GriS(k) /\ GriSign(r, Dim) = GriSign(k, Dim) /\ GriPow(r) = GriPow(k)
=============================================================================
