------------------------------- MODULE Horizon ------------------------------
(***************************************************************************)
(* C38: maxiter, ftol and xtol decide when a run ends, nothing else.       *)
(*                                                                         *)
(* One search, given by what the objective answers (vals[i] is the best    *)
(* value of iteration i; how far the best moved is move[i]), is cut at     *)
(* different places by two sets of limits.  The two runs step together     *)
(* until they end.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Levels, MaxIter
VARIABLES lim,   \* lim[r] = [maxiter, ftol]
          hist,  \* hist[r]: values seen
          end,   \* end[r]: "" or the reason
          best
vars == <<lim, hist, end, best>>
R == {1, 2}
Min(a, b) == IF a < b THEN a ELSE b
Init ==
  /\ lim \in [R -> [maxiter : 1..MaxIter, ftol : Levels \union {-1}]]
  \* the second is the longer one
  /\ lim[2].maxiter >= lim[1].maxiter /\ lim[2].ftol <= lim[1].ftol
  /\ hist = [r \in R |-> <<>>] /\ end = [r \in R |-> ""] /\ best = [r \in R |-> 999]
Reason(r, h, b) == IF b <= lim[r].ftol THEN "value" ELSE IF Len(h) >= lim[r].maxiter THEN "maxiter" ELSE ""
Iterate(v) ==
  /\ \E r \in R : end[r] = ""
  /\ LET on == {r \in R : end[r] = ""}
         h == [r \in R |-> IF r \in on THEN Append(hist[r], v) ELSE hist[r]]
         b == [r \in R |-> IF r \in on THEN Min(best[r], v) ELSE best[r]]
     IN /\ hist' = h /\ best' = b
        /\ end' = [r \in R |-> IF r \in on THEN Reason(r, h[r], b[r]) ELSE end[r]]
  /\ UNCHANGED lim
Next == \E v \in Levels : Iterate(v)
Spec == Init /\ [][Next]_vars
Prefix == SubSeq(hist[2], 1, Len(hist[1])) = hist[1]
Longer == Len(hist[2]) >= Len(hist[1])
NotWorse == best[2] <= best[1]
\* an end that has nothing to do with a changed limit is the end of both
SameEnd == (end[1] = "value" /\ lim[1].ftol = lim[2].ftol) => hist[1] = hist[2] /\ end[2] = "value"
=============================================================================
