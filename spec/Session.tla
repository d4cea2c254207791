------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* C37: several calls of the library under way at the same time.           *)
(*                                                                         *)
(* A call makes Steps steps (evaluations and callbacks).  In a step it     *)
(* draws from numpy's one global stream, reads what it keeps and writes it *)
(* back.  Whoever lets a second call run in between (an objective or a     *)
(* callback that calls the library: Nested; a second thread: not Nested)   *)
(* puts the stream back to where the first one left it.  What a call keeps *)
(* is its own: mem has one cell per call.  With Shared, all calls keep     *)
(* their things in the same cell; the model has to fail then.              *)
(*                                                                         *)
(* Terminal states emit their schedule; the harness makes the real calls   *)
(* take turns as it says.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Calls, Steps, Nested, Shared
VARIABLES pos, hist, rng, saved, mem, stack, sched, result
vars == <<pos, hist, rng, saved, mem, stack, sched, result>>

Cell(k) == IF Shared THEN 1 ELSE k
Init ==
  /\ pos = [k \in Calls |-> 0]
  /\ hist = [k \in Calls |-> <<>>]
  /\ rng = <<0, 0>>                                 \* seed and number of draws
  /\ saved = [k \in Calls |-> <<k, 0>>]             \* every call starts from its own seed
  /\ mem = [k \in Calls |-> <<>>]
  /\ stack = <<>>
  /\ sched = <<>>
  /\ result = [k \in Calls |-> <<>>]

May(k) ==
  /\ pos[k] < Steps
  /\ Nested => \/ stack # <<>> /\ Head(stack) = k
               \/ pos[k] = 0 /\ (stack = <<>> => \A j \in Calls : pos[j] = 0)
\* calls start in the order of their numbers
Ordered(k) == pos[k] = 0 => \A j \in Calls : j < k => pos[j] > 0

Step(k) ==
  /\ May(k) /\ Ordered(k)
  /\ LET s == saved[k]
         m == mem[Cell(k)]
         n == Append(m, s)
     IN /\ rng' = <<s[1], s[2] + 1>>
        /\ saved' = [saved EXCEPT ![k] = rng']
        /\ hist' = [hist EXCEPT ![k] = Append(@, <<s, m>>)]
        /\ mem' = [mem EXCEPT ![Cell(k)] = n]
        /\ pos' = [pos EXCEPT ![k] = @ + 1]
        /\ stack' = LET st == IF pos[k] = 0 THEN <<k>> \o stack ELSE stack
                    IN IF pos[k] + 1 = Steps /\ Nested THEN Tail(st) ELSE st
        /\ result' = [result EXCEPT ![k] = IF pos[k] + 1 = Steps THEN n ELSE @]
  /\ sched' = Append(sched, k)

Over == \A k \in Calls : pos[k] = Steps
Emit == Over => PrintT("@@B " \o ToJson(sched))
Next == \E k \in Calls : Step(k)
Spec == Init /\ [][Next]_vars

\* what a call does is what it does alone
Own(k, n) == [i \in 1..n |-> <<k, i - 1>>]
Alone == \A k \in Calls : hist[k] = [i \in 1..pos[k] |-> <<<<k, i - 1>>, Own(k, i - 1)>>]
\* a result stays what it was
Frozen == \A k \in Calls : pos[k] = Steps => result[k] = mem[Cell(k)] /\ result[k] = Own(k, Steps)
=============================================================================
