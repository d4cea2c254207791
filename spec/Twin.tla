--------------------------------- MODULE Twin ---------------------------------
(***************************************************************************)
(* 2-safety design model: two runs of the same optimizer in lockstep.      *)
(*                                                                         *)
(* Random numbers come from one stream, consumed by a counter; a position  *)
(* is named by everything it was computed from: the stream position and    *)
(* the identities (not the values) of the members used.  The second run    *)
(* sees the values through a strictly increasing map, may have observers   *)
(* (callback, return_all) and may be preceded by foreign draws; with a     *)
(* seed the counter restarts at 0, without it continues.                   *)
(***************************************************************************)
EXTENDS PopCore, TLC

CONSTANTS Sync, Pop, MaxIter, Levels,
          Maps,      \* set of sequences: strictly increasing images of the levels 1..Max
          Seeded     \* both runs pass the same seed

VARIABLES run,   \* run[r] = [slots, best, pos, stream, seen]
          trials, it, map, pre
vars == <<run, trials, it, map, pre>>

R == {1, 2}
Val(r, v) == IF r = 1 THEN v ELSE map[v]

\* The position of a new trial is determined by the random stream and by which members exist.
Where(s, i) == <<s.stream, [j \in DOMAIN s.slots |-> s.slots[j].id], s.best.id, i>>

Init ==
  /\ map \in Maps
  /\ pre \in 0..1                     \* foreign draws before the second run
  /\ it = 0 /\ trials = <<>>
  /\ run = [r \in R |-> [slots |-> <<>>, best |-> [v |-> 0, id |-> <<>>],
                         stream |-> IF Seeded \/ r = 1 THEN 0 ELSE pre,
                         obs |-> 0, where |-> <<>>]]

\* One evaluation in both runs: the underlying objective gives v at this point.
Eval(v) ==
  /\ it < MaxIter /\ Len(trials) < Pop
  /\ LET i == Len(trials) + 1
         w == [r \in R |-> Where(run[r], i)]
     IN /\ trials' = Append(trials, [v |-> v, w |-> w])
        /\ run' = [r \in R |->
             LET s == run[r]
                 c == [v |-> Val(r, v), id |-> w[r]]
             IN IF Sync \/ it = 0 THEN [s EXCEPT !.stream = @ + 1, !.where = w[r]]
                ELSE [s EXCEPT !.slots = AsyncSelect(s.slots, i, c),
                               !.best = AsyncBest(s.slots, s.best, i, c),
                               !.stream = @ + 1, !.where = w[r]]]
  /\ UNCHANGED <<it, map, pre>>

EndIter ==
  /\ it < MaxIter /\ Len(trials) = Pop
  /\ it' = it + 1 /\ trials' = <<>>
  /\ run' = [r \in R |->
       LET s == run[r]
           tr == [i \in 1..Pop |-> [v |-> Val(r, trials[i].v), id |-> trials[i].w[r]]]
           sl == IF it = 0 THEN tr ELSE IF Sync THEN SyncSelect(s.slots, tr) ELSE s.slots
       IN [s EXCEPT !.slots = sl,
                    !.best = IF it = 0 \/ Sync THEN sl[ArgMin(sl)] ELSE s.best,
                    \* the observer of the second run records, and changes nothing else
                    !.obs = IF r = 2 THEN @ + 1 ELSE @]]
  /\ UNCHANGED <<map, pre>>

Next == (\E v \in Levels : Eval(v)) \/ EndIter
Spec == Init /\ [][Next]_vars

\* C16 C17: same evaluated points, same members, same best, at every step
Lockstep ==
  Seeded \/ pre = 0 =>
    /\ run[1].where = run[2].where
    /\ [i \in DOMAIN run[1].slots |-> run[1].slots[i].id] = [i \in DOMAIN run[2].slots |-> run[2].slots[i].id]
    /\ run[1].best.id = run[2].best.id
\* unseeded runs continue the stream: foreign draws do show
Continues == ~Seeded /\ pre = 1 /\ it = 0 /\ trials # <<>> => run[1].where # run[2].where
=============================================================================
