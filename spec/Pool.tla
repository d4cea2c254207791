--------------------------------- MODULE Pool ---------------------------------
(***************************************************************************)
(* One generation evaluated by a pool of W workers: tasks start in order   *)
(* (queue), at most W run at a time, they finish in any order, the result  *)
(* of a task goes to the slot of that task; the generation ends when all   *)
(* have finished.                                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, W, Emit
VARIABLES next, running, res, order, joined, evals
vars == <<next, running, res, order, joined, evals>>

F(t) == 100 + t         \* the value of candidate t

Init == next = 1 /\ running = {} /\ res = [t \in 1..N |-> 0] /\ order = <<>> /\ joined = FALSE
        /\ evals = [t \in 1..N |-> 0]

Start == /\ next <= N /\ Cardinality(running) < W
         /\ running' = running \union {next} /\ next' = next + 1
         /\ UNCHANGED <<res, order, joined, evals>>

Finish(t) == /\ t \in running
             /\ running' = running \ {t}
             /\ res' = [res EXCEPT ![t] = F(t)]
             /\ evals' = [evals EXCEPT ![t] = @ + 1]
             /\ order' = Append(order, t)
             /\ UNCHANGED <<next, joined>>

Join == /\ ~joined /\ next > N /\ running = {}
        /\ joined' = TRUE /\ UNCHANGED <<next, running, res, order, evals>>

Done == joined /\ UNCHANGED vars
Next == Start \/ (\E t \in 1..N : Finish(t)) \/ Join \/ Done
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* C18
Credited == joined => \A t \in 1..N : res[t] = F(t)
Once == (\A t \in 1..N : evals[t] <= 1) /\ (joined => \A t \in 1..N : evals[t] = 1)
Bounded == Cardinality(running) <= W
Joins == <>joined
EmitBehaviour == Emit /\ joined => PrintT("@@B " \o ToJson([n |-> N, w |-> W, order |-> order]))
=============================================================================
