------------------------------ MODULE StopModel -----------------------------
(***************************************************************************)
(* A caricature of the adapted distribution: the logarithmic size of each  *)
(* of two axes and of the step size, moved by the selection of every       *)
(* generation: "in" (points near the mean win: everything shrinks), "go"   *)
(* (points ahead win: the step size grows), "flat" (points near one plane  *)
(* win: one axis shrinks, the other does not).  The schedules of selection *)
(* it enumerates are replayed in the real code.                            *)
(***************************************************************************)
EXTENDS StopRule, TLC, Json
CONSTANTS Len0, Max, TinyE, UpE, TolE, CondE, Emit
Starts == {"tiny", "normal", "huge"}
Cmds == {"in", "go", "flat"}
VARIABLES alg, start, s, a, k, cmds, status
vars == <<alg, start, s, a, k, cmds, status>>
\* sigma0 in units: tiny is just above the absolute threshold TinyE
Sigma0(x) == CASE x = "tiny" -> TinyE + 1 [] x = "normal" -> TinyE + 6 [] OTHER -> TinyE + 6 + TolE
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x < y THEN y ELSE x
Q == LET lo == s + Min2(a[1], a[2])
         hi == s + Max2(a[1], a[2])
     IN [ax |-> (s + a[(k % 2) + 1]) - TinyE,
         co |-> lo - TinyE,
         cd |-> (hi - lo) - CondE,
         up |-> hi - (Sigma0(start) + UpE),
         tx |-> hi - (Sigma0(start) - TolE)]
Init ==
  /\ alg \in {"cmaes", "vdcma"} /\ start \in Starts
  /\ s = Sigma0(start) /\ a = <<0, 0>> /\ k = 0 /\ cmds = <<>> /\ status = 0
Gen(c) ==
  /\ status = 0 /\ k < Max
  /\ k' = k + 1
  /\ cmds' = IF Len(cmds) < Len0 THEN Append(cmds, c) ELSE cmds
  /\ (Len(cmds) >= Len0 => c = cmds[Len0])   \* the last one goes on
  /\ s' = IF c = "in" THEN s - 1 ELSE IF c = "go" THEN s + 1 ELSE s
  /\ a' = IF c = "flat" THEN <<a[1] - 1, a[2]>> ELSE a
  /\ UNCHANGED <<alg, start>>
  /\ status' = LET v == Verdict(alg, Q') IN IF v # 0 THEN v ELSE IF k' = Max THEN -1 ELSE 0
Next == \E c \in Cmds : Gen(c)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

TrueReason == status \in {-2, -3, -4, -6, -8} => Holds(alg, Q, status)
NoneMissed == (k > 0 /\ status \in {0, -1}) => Reasons(alg, Q) = {}
FirstReason == status < -1 => \A r \in Reasons(alg, Q) : r <= status
\* a distribution that only shrinks is not followed for ever
Ends == <>(status # 0)
\* a shrinking axis is noticed in every coordinate before, or when, it is noticed as an axis of no effect
CoordFirst == (alg = "cmaes" /\ status = -2) => Q.co < 0
Worth == status # 0 \/ k = Max
Out == (Emit /\ Worth) => PrintT("@@B " \o ToJson([alg |-> alg, start |-> start, cmds |-> cmds, status |-> status]))
=============================================================================
