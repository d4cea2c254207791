----------------------------- MODULE ChainModel -----------------------------
(***************************************************************************)
(* One run of mcmc/hmc: every script of proposal values, every outcome of  *)
(* the lottery for a worse proposal.  Far = TRUE leaves out the lottery    *)
(* (values so far apart that exp(-difference) is 0): those behaviours are  *)
(* deterministic and are replayed into the real samplers.                  *)
(***************************************************************************)
EXTENDS Chain, TLC, Json
CONSTANTS Maxiter, Values, Dim, BlockSize, Far, Reject, Emit
VARIABLES vals,      \* values of the samples
          props,     \* values of the proposals (first: x0)
          moved,     \* moved[i]: was sample i a new point
          blk,       \* coordinates proposed at each step
          imin,      \* index of the best sample, tracked incrementally as the code does
          nacc, done
vars == <<vals, props, moved, blk, imin, nacc, done>>

Init == /\ \E v \in Values : vals = <<v>> /\ props = <<v>>
        /\ moved = <<TRUE>> /\ blk = <<>> /\ imin = 1 /\ nacc = 0 /\ done = FALSE
Cur == vals[Len(vals)]
Outcomes(v) == IF Must(v, Cur) THEN {TRUE} ELSE IF Never(v, Cur) \/ Far THEN {FALSE} ELSE BOOLEAN
Propose ==
  /\ ~done /\ Len(vals) < Maxiter
  /\ \E v \in Values \union (IF Reject THEN {0} ELSE {}) : \E a \in Outcomes(v) :
       /\ props' = Append(props, v)
       /\ vals' = Append(vals, IF a THEN v ELSE Cur)
       /\ moved' = Append(moved, a)
       /\ nacc' = nacc + (IF a THEN 1 ELSE 0)
       /\ imin' = IF a /\ v < vals[imin] THEN Len(vals) + 1 ELSE imin
  /\ blk' = Append(blk, Block(Len(vals), Dim, BlockSize))
  /\ UNCHANGED done
Finish ==
  /\ ~done /\ Len(vals) = Maxiter /\ done' = TRUE
  /\ IF Emit THEN PrintT("@@B " \o ToJson([props |-> props, vals |-> vals, moved |-> moved, imin |-> imin, nacc |-> nacc]))
     ELSE TRUE
  /\ UNCHANGED <<vals, props, moved, blk, imin, nacc>>
Next == Propose \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C24
BestTracked == vals[imin] = Minimum(vals) /\ imin = Best(vals)
Ratio == nacc = Cardinality({i \in 2..Len(vals) : moved[i]}) /\ nacc <= Len(vals) - 1
Length == done => Len(vals) = Maxiter
Terminates == <>done
\* C22
RejectedRepeats == \A i \in 2..Len(vals) : ~moved[i] => vals[i] = vals[i - 1]
Downhill == \A i \in 2..Len(vals) : (props[i] > 0 /\ props[i] <= vals[i - 1]) => moved[i]
Infeasible == \A i \in 2..Len(vals) : props[i] = 0 => ~moved[i]
\* every coordinate is proposed exactly once per cycle
Cover == \A s \in 0..(Len(blk) - Blocks(Dim, BlockSize)) :
           \A c \in 1..Dim : Cardinality({k \in (s + 1)..(s + Blocks(Dim, BlockSize)) : c \in blk[k]}) = 1
BlockShape == \A k \in DOMAIN blk : blk[k] # {} /\ Cardinality(blk[k]) <= BlockSize
=============================================================================
