-------------------------------- MODULE Fault -------------------------------
(***************************************************************************)
(* A run as a sequence of calls of user code: "f" the objective, "j" the   *)
(* gradient, "c" the callback.  One of the calls fails.  Serial runs end   *)
(* there; a parallel run may finish the evaluations of its iteration.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Kind, Pop, Iters, Leap, Parallel

RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Fs(n) == Rep(<<"f">>, n)
Prog == CASE Kind = "optimizer" -> Rep(Fs(Pop) \o <<"c">>, Iters)
          [] Kind = "mcmc"      -> Rep(<<"f", "c">>, Iters)
          [] Kind = "hmc"       -> <<"f", "c">> \o Rep(Rep(<<"j">>, Leap + 2) \o <<"f", "f", "c">>, Iters - 1)

VARIABLES at, fault, ph, seen, left
vars == <<at, fault, ph, seen, left>>
CountIn(s, k) == Cardinality({i \in DOMAIN s : s[i] = k})
Nth(p) == CountIn(SubSeq(Prog, 1, p), Prog[p])
\* evaluations of the same iteration that follow position p
RECURSIVE Rest(_)
Rest(p) == IF p >= Len(Prog) \/ Prog[p + 1] # "f" THEN 0 ELSE 1 + Rest(p + 1)

Init == /\ at = 0 /\ fault \in 1..Len(Prog) /\ ph = "run" /\ seen = <<>> /\ left = 0
Call == /\ ph = "run" /\ at < Len(Prog)
        /\ at' = at + 1 /\ seen' = Append(seen, Prog[at + 1])
        /\ IF at + 1 = fault
           THEN /\ ph' = "failing"
                /\ left' = IF Parallel /\ Prog[fault] = "f" THEN Rest(fault) ELSE 0
           ELSE UNCHANGED <<ph, left>>
        /\ UNCHANGED fault
Finish == /\ ph = "failing" /\ left > 0 /\ left' = left - 1 /\ seen' = Append(seen, "f")
          /\ UNCHANGED <<at, fault, ph>>
Raise == /\ ph = "failing" /\ ph' = "raised" /\ UNCHANGED <<at, fault, seen, left>>
Next == Call \/ Finish \/ Raise
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what a user can rely on
SerialStops == (~Parallel /\ ph # "run") => seen = SubSeq(Prog, 1, fault)
NoCallbackOfFailed == ph # "run" => CountIn(seen, "c") = CountIn(SubSeq(Prog, 1, fault), "c")
WithinIteration == ph # "run" => CountIn(seen, "f") <= CountIn(SubSeq(Prog, 1, fault), "f") + Rest(fault)
Ends == <>(ph = "raised")
Emitted == (ph = "raised" /\ left = 0 /\ seen = SubSeq(Prog, 1, Len(seen))) =>
  PrintT("@@B " \o ToJson([call |-> Prog[fault], n |-> Nth(fault), cbs |-> CountIn(seen, "c")]))
=============================================================================
