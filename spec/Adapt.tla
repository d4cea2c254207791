-------------------------------- MODULE Adapt -------------------------------
(***************************************************************************)
(* How an evolution strategy adapts its sampling distribution, in fixed    *)
(* point arithmetic: steps, paths and matrices in thousandths, weights and *)
(* learning rates in ten thousandths.                                      *)
(*   Shape  - covariance matrix adaptation: evolution paths, rank-one and  *)
(*            rank-mu update, cumulative step-size adaptation              *)
(*   Lag    - how old the decomposition in use may be                      *)
(*   Bnd    - the weights of the boundary penalty                          *)
(*   Tpa    - two-point step-size adaptation (vdcma)                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LOCAL INSTANCE SequencesExt

Abs(a) == IF a < 0 THEN -a ELSE a
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
\* division that rounds to the nearest integer, for either sign
Div(a, b) == IF a >= 0 THEN (a + b \div 2) \div b ELSE -((-a + b \div 2) \div b)
RECURSIVE Isq(_, _)
Isq(a, x) == LET y == (x + a \div x) \div 2 IN IF y >= x THEN x ELSE Isq(a, y)
Sqrt(a) == IF a <= 0 THEN 0 ELSE Isq(a, (a \div 2) + 1)
RECURSIVE SumF(_, _)
SumF(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumF(f, k - 1)
Sum(f) == SumF(f, Len(f))

(* --- parents ----------------------------------------------------------- *)
\* members in increasing order of their (distinct) ranks
Kth(rank, k) == CHOOSE i \in DOMAIN rank : Cardinality({q \in DOMAIN rank : rank[q] < rank[i]}) = k - 1
Parents(rank, mu) == [k \in 1..mu |-> Kth(rank, k)]
\* weighted mean of the coordinates x (weights in ten thousandths)
WMean(w, x) == Div(Sum([k \in DOMAIN w |-> w[k] * x[k]]), 10000)

(* --- constants (mueff in hundredths, results in ten thousandths) ------- *)
CC(n, me) == (10000 * (400 * n + me)) \div (n * (100 * n + 400) + 2 * me)
\* cc = (4 + mueff/n) / (n + 4 + 2 mueff/n) = (4n + mueff) / (n(n+4) + 2 mueff)
CS(n, me) == (10000 * (me + 200)) \div (100 * n + me + 500)
C1(n, me) == 2000000 \div ((10 * n + 13) * (10 * n + 13) + me)
CMu(n, me) == Min2(10000 - C1(n, me), (20000 * (me - 200 + 10000 \div me)) \div (100 * (n + 2) * (n + 2) + me))
\* sqrt(c (2 - c) mueff), in ten thousandths
Gain(c, me) == 10 * Sqrt(((c * (20000 - c)) \div 10000) * me)
Damps(n, me, cs) == LET q == 10 * Sqrt((1000000 * Max2(0, me - 100)) \div (100 * (n + 1)))
                    IN 10000 + 2 * Max2(0, q - 10000) + cs

(* --- covariance matrix adaptation -------------------------------------- *)
Mat(n, f(_, _)) == [a \in 1..n |-> [b \in 1..n |-> f(a, b)]]
RankMu(n, w, y) ==
  LET E(a, b) == Div(Sum([k \in DOMAIN w |-> w[k] * Div(y[k][a] * y[k][b], 1000)]), 10000) IN Mat(n, E)
\* path, gain and step: p' = (1 - c) p + gain * step
Path(p, c, gain, step, hs) == [j \in DOMAIN p |-> Div((10000 - c) * p[j] + (IF hs THEN gain * step[j] ELSE 0), 10000)]
CovStep(n, C, RM, pc, c1, cmu, cc, hs) ==
  LET extra == IF hs THEN 0 ELSE Div(c1 * Div(cc * (20000 - cc), 10000), 10000)
      E(a, b) == Div((10000 - c1 - cmu + extra) * C[a][b] + cmu * RM[a][b] + c1 * Div(pc[a] * pc[b], 1000), 10000)
  IN Mat(n, E)
Norm(p) == Sqrt(Sum([j \in DOMAIN p |-> p[j] * p[j]]))
\* exp(e / 10000) in ten thousandths, for |e| <= 10000
Exp(e) == 10000 + e + Div(e * e, 20000) + Div(Div(e * e, 10000) * e, 60000) + Div(Div(e * e, 10000) * Div(e * e, 10000), 240000)
\* relative change of the step size; chi = expected length of a standard normal vector (thousandths)
SizeChange(cs, damps, len, chi) == Exp(Div(Div(cs * 10000, damps) * Div(10000 * (len - chi), chi), 10000))

(* --- age of the decomposition ------------------------------------------ *)
\* decomposed again as soon as more than 1 / (10 n (c1 + cmu)) generations have passed (r = c1 + cmu in millionths)
Due(n, r, age) == age * 10 * n * r > 1000000

(* --- boundary penalty --------------------------------------------------- *)
\* f / 10000 of w, for large w
Grow(w, f) == (w \div 10000) * f + Div((w % 10000) * f, 10000)
HistCap(n, pop) == 20 * pop + 3 * n          \* the history holds deltas while (size * pop) < this
Remember(h, d, n, pop) == IF Len(h) * pop < HistCap(n, pop) THEN Append(h, d) ELSE Append(Tail(h), d)
Sorted(h) == SortSeq(h, <)
Median(h) == LET s == Sorted(h)
                 k == Len(s)
             IN IF k % 2 = 1 THEN s[(k + 1) \div 2] ELSE (s[k \div 2] + s[k \div 2 + 1]) \div 2
MinPos(h) == LET P == {h[i] : i \in {q \in DOMAIN h : h[q] > 0}} IN CHOOSE m \in P : \A o \in P : m <= o
\* state of the penalty: [w, hist, valid, ini]; what a generation shows: delta, out, grow
BndStep(s, n, pop, it, delta, out, grow, f, one) ==
  LET d == IF delta = 0 THEN MinPos(s.hist) ELSE delta
      h0 == IF delta # 0 /\ ~s.valid THEN <<>> ELSE s.hist
      v == s.valid \/ delta # 0
      h == Remember(h0, d, n, pop)
      any == \E j \in DOMAIN out : out[j] # 0
      m == Median(h)
      w0 == IF s.ini /\ any THEN [j \in DOMAIN s.w |-> 2 * m + m \div 5000] ELSE s.w
      w1 == [j \in DOMAIN w0 |-> IF any /\ grow[j] THEN Grow(w0[j], f) ELSE w0[j]]
  IN [w |-> w1, hist |-> h, valid |-> v, ini |-> s.ini /\ ~(any /\ v /\ it > 2)]

(* --- two-point step-size adaptation ------------------------------------- *)
\* 0.7 p + 0.3 (rank of the backward point - rank of the forward point) / (pop - 1), in ten thousandths
TpaPath(p, fwd, bwd, pop) == Div(7 * p + 3 * Div(10000 * (bwd - fwd), pop - 1), 10)
=============================================================================
