------------------------------- MODULE NAModel ------------------------------
(***************************************************************************)
(* Neighbourhood search on the integer line 0..W (Voronoi cells are        *)
(* computed), objective an arbitrary assignment of values to points.       *)
(***************************************************************************)
EXTENDS NACell, TLC
CONSTANTS W, Pop, Nr, Levels, MaxIter
VARIABLES f, pts, k, cur, it
vars == <<f, pts, k, cur, it>>
Abs(a) == IF a < 0 THEN -a ELSE a
Values(ps) == [q \in DOMAIN ps |-> f[ps[q]]]
Owners(ps, p) == {m \in DOMAIN ps : \A q \in DOMAIN ps : Abs(ps[m] - p) <= Abs(ps[q] - p)}
Init == /\ f \in [0..W -> Levels] /\ pts \in [1..Pop -> 0..W] /\ k = 0 /\ cur = <<>> /\ it = 1
New == /\ it < MaxIter /\ k < Pop
       /\ \E p \in 0..W : /\ Lawful(Values(pts), Owners(pts, p), k, Nr)
                          /\ cur' = Append(cur, p)
       /\ k' = k + 1 /\ UNCHANGED <<f, pts, it>>
EndIter == /\ k = Pop /\ pts' = cur \o pts /\ cur' = <<>> /\ k' = 0 /\ it' = it + 1 /\ UNCHANGED f
Next == New \/ EndIter
Spec == Init /\ [][Next]_vars
Inside == \A q \in DOMAIN pts : pts[q] \in 0..W
\* there is always a lawful new model (the resampled model itself)
Possible == (it < MaxIter /\ k < Pop) => \E m \in DOMAIN pts : HasRank(Values(pts), m, k % Nr) /\ Lawful(Values(pts), Owners(pts, pts[m]), k, Nr)
Count == Len(pts) = it * Pop
=============================================================================
