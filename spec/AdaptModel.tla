----------------------------- MODULE AdaptModel -----------------------------
(***************************************************************************)
(* Adapt explored exhaustively on small steps.  Three machines:            *)
(*  "shape": covariance, paths and step size over every sequence of parent *)
(*           steps from a grid (with a mirrored twin: first axis negated)  *)
(*  "lag":   age of the decomposition                                      *)
(*  "bnd":   weights of the penalty over every sequence of observations    *)
(*  "tpa":   two-point path                                                *)
(***************************************************************************)
EXTENDS Adapt
CONSTANTS Machine, Grid, Gens, Me, MaxAge, Rates, Deltas, Pop
VARIABLES it, C, pc, ps, M, mc, ms, last, b, prevb, obs, p, age, rate
vars == <<it, C, pc, ps, M, mc, ms, last, b, prevb, obs, p, age, rate>>
N == 2
W == <<7000, 3000>>
I == Mat(N, LAMBDA i, j : IF i = j THEN 1000 ELSE 0)
Zero == [j \in 1..N |-> 0]
Chi == 1254
cs == CS(N, Me)
cc == CC(N, Me)
c1 == C1(N, Me)
cmu == CMu(N, Me)
Flip(y) == <<-y[1], y[2]>>
Init ==
  /\ it = 0 /\ C = I /\ pc = Zero /\ ps = Zero /\ M = I /\ mc = Zero /\ ms = Zero
  /\ last = [y |-> <<Zero, Zero>>, len |-> 0, r |-> 10000, hs |-> TRUE]
  /\ b = [w |-> Zero, hist |-> <<50>>, valid |-> FALSE, ini |-> TRUE] /\ prevb = b
  /\ obs = [delta |-> 0, out |-> Zero, grow |-> <<FALSE, FALSE>>]
  /\ p = 0 /\ age = 0 /\ rate \in Rates

Shape ==
  /\ Machine = "shape" /\ it < Gens
  /\ \E y1 \in Grid \X Grid, y2 \in Grid \X Grid, hs \in BOOLEAN :
       LET y == <<y1, y2>>
           mean == [j \in 1..N |-> WMean(W, <<y1[j], y2[j]>>)]
           s == Path(ps, cs, Gain(cs, Me), mean, TRUE)
           c == Path(pc, cc, Gain(cc, Me), mean, hs)
           my == <<Flip(y1), Flip(y2)>>
           mmean == [j \in 1..N |-> WMean(W, <<my[1][j], my[2][j]>>)]
           m2 == Path(mc, cc, Gain(cc, Me), mmean, hs)
           m3 == Path(ms, cs, Gain(cs, Me), mmean, TRUE)
       IN /\ C' = CovStep(N, C, RankMu(N, W, y), c, c1, cmu, cc, hs)
          /\ pc' = c /\ ps' = s
          /\ M' = CovStep(N, M, RankMu(N, W, my), m2, c1, cmu, cc, hs)
          /\ mc' = m2 /\ ms' = m3
          /\ last' = [y |-> y, len |-> Norm(s), r |-> SizeChange(cs, Damps(N, Me, cs), Norm(s), Chi), hs |-> hs]
  /\ it' = it + 1
  /\ UNCHANGED <<b, prevb, obs, p, age, rate>>
Bnd ==
  /\ Machine = "bnd" /\ it < Gens
  /\ \E d \in Deltas, o \in {-1, 0, 1} \X {-1, 0, 1}, g \in BOOLEAN \X BOOLEAN :
       /\ \A j \in 1..N : g[j] => o[j] # 0
       /\ obs' = [delta |-> d, out |-> o, grow |-> g]
       /\ b' = BndStep(b, N, Pop, it + 1, d, o, g, 10500, 50)
  /\ prevb' = b /\ it' = it + 1
  /\ UNCHANGED <<C, pc, ps, M, mc, ms, last, p, age, rate>>
Tpa ==
  /\ Machine = "tpa" /\ it < Gens
  /\ \E f \in 1..Pop, g \in 1..Pop : f # g /\ p' = TpaPath(p, f, g, Pop)
  /\ it' = it + 1
  /\ UNCHANGED <<C, pc, ps, M, mc, ms, last, b, prevb, obs, age, rate>>
Lag ==
  /\ Machine = "lag" /\ it < Gens
  /\ age' = IF Due(N, rate, age + 1) THEN 0 ELSE age + 1
  /\ it' = it + 1
  /\ UNCHANGED <<C, pc, ps, M, mc, ms, last, b, prevb, obs, p, rate>>
Next == Shape \/ Bnd \/ Tpa \/ Lag
Spec == Init /\ [][Next]_vars

(* shape *)
Symmetric == C[1][2] = C[2][1]
Positive == C[1][1] > 0 /\ C[2][2] > 0 /\ C[1][1] * C[2][2] >= C[1][2] * C[1][2]
Mirrored == M[1][1] = C[1][1] /\ M[2][2] = C[2][2] /\ M[1][2] = -C[1][2] /\ ms = Flip(ps) /\ mc = Flip(pc)
Longer == (last.len > Chi + 5 => last.r >= 10000) /\ (last.len < Chi - 5 => last.r <= 10000 \/ it = 0)
Decays == [][(\A j \in 1..2 : last'.y[j] = Zero) /\ last'.hs => C'[1][1] + C'[2][2] <= C[1][1] + C[2][2] + Div(c1 * Div(pc'[1] * pc'[1] + pc'[2] * pc'[2], 1000), 10000) + 2]_vars
(* bnd *)
Untouched == (\A j \in 1..N : prevb.w[j] = 0) /\ (\A j \in 1..N : obs.out[j] = 0) => \A j \in 1..N : b.w[j] = 0
Frozen == ~prevb.ini => \A j \in 1..N : b.w[j] >= prevb.w[j] /\ (~obs.grow[j] => b.w[j] = prevb.w[j])
Latch == (prevb.valid => b.valid) /\ (~prevb.ini => ~b.ini)
Bounded == Len(b.hist) * Pop < HistCap(N, Pop) + Pop /\ \A k \in DOMAIN b.hist : b.hist[k] > 0
Sound == ~b.ini => \E j \in 1..N : b.w[j] > 0
(* tpa *)
InRange == Abs(p) <= 10000
(* lag *)
Young == age * 10 * N * rate <= 1000000
=============================================================================
