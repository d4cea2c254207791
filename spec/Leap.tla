-------------------------------- MODULE Leap --------------------------------
(***************************************************************************)
(* The leapfrog recurrence q[k+1] = 2 q[k] - q[k-1] - g(q[k]) on a ring,   *)
(* for every gradient table g.  It is reversible (the trajectory walked    *)
(* backwards is a trajectory of the same map) and the map of phase space   *)
(* is a bijection: with the Metropolis rule this makes hmc sample the      *)
(* right distribution.  The momentum form used by the code (half step,     *)
(* full steps, half step) and this position form are the same map:         *)
(* Momentum checks it, with momenta doubled to stay in the integers.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Steps
VARIABLES g, q, m          \* gradient table, positions so far, twice the momentum before each position step
vars == <<g, q, m>>
Ring == 0..(N - 1)
Next2(a, b) == (2 * b - a - g[b]) % N
\* one full trajectory in momentum form on the integers: P = 2p, positions doubled (Q = 2q)
Init == /\ g \in [Ring -> Ring]
        /\ \E a \in Ring, p \in Ring :
             /\ m = <<(2 * p - g[a]) % (2 * N)>>          \* half momentum step
             /\ q = <<a>>
\* positions advance by P/2; only even P stay on the lattice, so start from those
Step == /\ Len(q) <= Steps
        /\ m[Len(m)] % 2 = 0
        /\ LET b == (q[Len(q)] + m[Len(m)] \div 2) % N IN
           /\ q' = Append(q, b)
           /\ m' = Append(m, (m[Len(m)] - 2 * g[b]) % (2 * N))
        /\ UNCHANGED g
Spec == Init /\ [][Step]_vars
Momentum == \A k \in 2..(Len(q) - 1) : q[k + 1] = Next2(q[k - 1], q[k])
Reversible == \A k \in 2..(Len(q) - 1) : q[k - 1] = Next2(q[k + 1], q[k])
Bijective == Cardinality({<<b, Next2(a, b)>> : a \in Ring, b \in Ring}) = N * N
=============================================================================
