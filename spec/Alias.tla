-------------------------------- MODULE Alias -------------------------------
(***************************************************************************)
(* Who owns which array.  Cells hold contents; the user holds references   *)
(* to the cells given as arguments and to those handed out in states; the  *)
(* run writes into its working cells.  With Copies = TRUE arguments are    *)
(* copied when taken and arrays are copied (or never written again) when   *)
(* handed out: no write is ever visible to the user.  With FALSE one is.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cells, Copies, Writes
VARIABLES mem, given, work, out, n, ver
vars == <<mem, given, work, out, n, ver>>
\* out: sequence of <<cell, content when handed out>>; ver: number of writes made
Init == /\ mem = [c \in 1..Cells |-> 0] /\ given = 1 /\ n = 2 /\ out = <<>> /\ ver = 0
        /\ work = IF Copies THEN 2 ELSE 1
Write == /\ ver < Writes /\ ver' = ver + 1
         /\ mem' = [mem EXCEPT ![work] = ver + 1] /\ UNCHANGED <<given, work, out, n>>
Hand == /\ Len(out) < 2
        /\ IF Copies
           THEN /\ n < Cells /\ n' = n + 1 /\ mem' = [mem EXCEPT ![n + 1] = mem[work]]
                /\ out' = Append(out, <<n + 1, mem[work]>>)
           ELSE /\ out' = Append(out, <<work, mem[work]>>) /\ UNCHANGED <<n, mem>>
        /\ UNCHANGED <<given, work, ver>>
Next == Write \/ Hand
Spec == Init /\ [][Next]_vars
ArgumentsKept == mem[given] = 0
StatesKept == \A k \in DOMAIN out : mem[out[k][1]] = out[k][2]
=============================================================================
