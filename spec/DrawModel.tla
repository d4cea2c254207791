------------------------------ MODULE DrawModel -----------------------------
(***************************************************************************)
(* The mechanisms behind the choices, draw by draw; all behaviours of a    *)
(* machine have the same length and every draw is uniform, so outcomes are *)
(* as probable as they have behaviours.  The weights of Draws are those    *)
(* numbers of behaviours.                                                  *)
(*  donors  shuffle the other members, keep the first K                    *)
(*  cross   one coordinate J; a lottery of B tickets per coordinate, of    *)
(*          which A are for the mutant                                     *)
(*  lhs     one permutation of the cells per coordinate                    *)
(***************************************************************************)
EXTENDS Draws, TLC
CONSTANTS Machine, P, K, N, A, B
VARIABLES seq, pc
vars == <<seq, pc>>
Others == 1..(P - 1)
Init == seq = <<>> /\ pc = "draw"
Draw ==
  /\ pc = "draw"
  /\ CASE Machine = "donors" -> \E x \in Others : (\A i \in DOMAIN seq : seq[i] # x) /\ seq' = Append(seq, x)
       [] Machine = "cross" -> \E x \in (IF seq = <<>> THEN 1..N ELSE 1..B) : seq' = Append(seq, x)
       [] OTHER -> \E x \in 1..P : (\A i \in DOMAIN seq : (i - 1) \div P = Len(seq) \div P => seq[i] # x) /\ seq' = Append(seq, x)
  /\ pc' = IF Len(seq') = (CASE Machine = "donors" -> P - 1 [] Machine = "cross" -> N + 1 [] OTHER -> P * N) THEN "done" ELSE "draw"
Next == Draw
Spec == Init /\ [][Next]_vars

\* outcomes
Kept == SubSeq(seq, 1, K)
Mutant == {i \in 1..N : seq[1] = i \/ seq[i + 1] <= A}
RECURSIVE Number(_)
Number(S) == IF S = {} THEN 0 ELSE LET e == CHOOSE x \in S : TRUE IN Pow(2, e - 1) + Number(S \ {e})
Distinct == Machine = "donors" /\ pc = "done" => \A i, j \in 1..K : i # j => seq[i] # seq[j]
Never == Machine = "cross" /\ pc = "done" => Mutant # {}
Whole == Machine = "cross" /\ pc = "done" /\ A = B => Mutant = 1..N
Latin == Machine = "lhs" /\ pc = "done" => \A d \in 0..(N - 1) : {seq[d * P + i] : i \in 1..P} = 1..P
\* the number of behaviours of every outcome, counted
Micro == [1..(N + 1) -> 1..(IF N > B THEN N ELSE B)]
Count(c) == Cardinality({f \in Micro : /\ f[1] <= N /\ \A i \in 2..(N + 1) : f[i] <= B
                                       /\ Number({i \in 1..N : f[1] = i \/ f[i + 1] <= A}) = c})
Q == [k |-> "cross", n |-> N, a |-> A, b |-> B]
WeightsCount == (Machine = "cross" /\ seq = <<>>) => \A c \in 1..Cells(Q) : Count(c) = B * Weight(Q, c)
\* what the other kinds say about one and two coordinates follows from that
Outcomes == 1..Cells(Q)
Has(c, j) == (c \div Pow(2, j - 1)) % 2
RECURSIVE Over(_, _)
Over(S, v) == IF S = {} THEN 0 ELSE LET e == CHOOSE x \in S : TRUE IN v[e] + Over(S \ {e}, v)
Marginals == (Machine = "cross" /\ seq = <<>>) =>
  LET v == [c \in Outcomes |-> Weight(Q, c)]
      one == [Q EXCEPT !.k = "one"]
      two == [Q EXCEPT !.k = "two"]
  IN /\ \A j \in 1..N, x \in 0..1 : B * B * Over({c \in Outcomes : Has(c, j) = x}, v) = Weight(one, x + 1) * Pow(B, N)
     /\ \A j, l \in 1..N, x, y \in 0..1 : j # l =>
          B * B * B * Over({c \in Outcomes : Has(c, j) = x /\ Has(c, l) = y}, v) = Weight(two, 1 + 2 * x + y) * Pow(B, N)
TotalIs == (Machine = "cross" /\ seq = <<>>) => Total(Q) = N * Pow(B, N - 1)
\* every ordered choice of K has as many completions: (P - 1 - K)!
Fair == (Machine = "donors" /\ seq = <<>>) =>
  LET all == {f \in [1..(P - 1) -> Others] : \A i, j \in 1..(P - 1) : i # j => f[i] # f[j]}
  IN \A g \in {[i \in 1..K |-> f[i]] : f \in all} :
       Cardinality({f \in all : \A i \in 1..K : f[i] = g[i]}) * Falling(P - 1, K) = Cardinality(all)
=============================================================================
