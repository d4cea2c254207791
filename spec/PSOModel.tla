------------------------------ MODULE PSOModel ------------------------------
(***************************************************************************)
(* A particle swarm on the integer line 0..W with 'Shrink', weights        *)
(* multiples of 100 (so that every integer part of a way is a lawful       *)
(* part).  Checked: the swarm stays in the box, a swarm on one point       *)
(* without velocity stays there, the best value never gets worse.          *)
(***************************************************************************)
EXTENDS PSOMove, FiniteSets, TLC

CONSTANTS Pop, W, WI, C1, C2, Sync, Target, MaxIter
VARIABLES x, v, pb, gb, old, k, it
vars == <<x, v, pb, gb, old, k, it>>
Abs(a) == IF a < 0 THEN -a ELSE a
F(p) == Abs(p - Target)
Clip(a) == IF a < 0 THEN 0 ELSE IF a > W THEN W ELSE a
Best(ps) == CHOOSE i \in DOMAIN ps : \A j \in DOMAIN ps : F(ps[i]) <= F(ps[j])

Init == /\ x \in [1..Pop -> 0..W] /\ v = [i \in 1..Pop |-> 0] /\ pb = x
        /\ gb = x[Best(x)] /\ old = gb /\ k = 0 /\ it = 1
Steps(i, g) ==
  LET lo == Lo(WI, C1, C2, v[i], pb[i] - x[i], g - x[i])
      hi == Hi(WI, C1, C2, v[i], pb[i] - x[i], g - x[i])
  IN {s \in (-4 * W)..(4 * W) : Within(s, lo, hi, 0)}
Move ==
  /\ k < Pop /\ it < MaxIter
  /\ LET i == k + 1 IN
     \E s \in Steps(i, IF Sync THEN old ELSE gb) :
       LET y == Clip(x[i] + s)
           win == IF Sync THEN F(y) < F(pb[i]) ELSE F(y) <= F(pb[i])
       IN /\ x' = [x EXCEPT ![i] = y] /\ v' = [v EXCEPT ![i] = y - x[i]]
          /\ pb' = IF win THEN [pb EXCEPT ![i] = y] ELSE pb
          /\ gb' = IF ~Sync /\ win /\ F(y) <= F(gb) THEN y ELSE gb
  /\ k' = k + 1 /\ UNCHANGED <<old, it>>
EndIter == /\ k = Pop /\ k' = 0 /\ it' = it + 1
           /\ gb' = (IF Sync THEN pb[Best(pb)] ELSE gb) /\ old' = gb' /\ UNCHANGED <<x, v, pb>>
Next == Move \/ EndIter
Spec == Init /\ [][Next]_vars
Inside == \A i \in DOMAIN x : x[i] \in 0..W /\ pb[i] \in 0..W
BestIsBest == k = 0 => \A i \in DOMAIN pb : F(gb) <= F(pb[i])
StepRecorded == \A i \in DOMAIN x : x[i] - v[i] \in 0..W
Stay == ((\A i \in DOMAIN x : x[i] = x[1] /\ v[i] = 0 /\ pb[i] = x[1]) /\ gb = x[1] /\ old = gb) => Steps(1, gb) = {0}
Monotone == [][F(gb') <= F(gb)]_vars
=============================================================================
