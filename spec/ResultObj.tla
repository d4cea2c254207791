------------------------------ MODULE ResultObj -----------------------------
(***************************************************************************)
(* A result object: a dictionary whose keys are its attributes.  `d' is    *)
(* the dictionary as a set of pairs <<key, value>> with distinct keys.     *)
(* Item and attribute operations are the same operations.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Keys(d) == {e[1] : e \in d}
Get(d, k) == (CHOOSE e \in d : e[1] = k)[2]
Put(d, k, v) == {e \in d : e[1] # k} \union {<<k, v>>}
Drop(d, k) == {e \in d : e[1] # k}
RECURSIVE PutAll(_, _)
PutAll(d, s) == IF s = <<>> THEN d ELSE PutAll(Put(d, s[1][1], s[1][2]), Tail(s))

\* outcome of an operation [op, k, v, s]: the next dictionary
After(d, o) ==
  CASE o.op \in {"setitem", "setattr"} -> Put(d, o.k, o.v)
    [] o.op \in {"delitem", "delattr", "pop"} -> Drop(d, o.k)
    [] o.op \in {"update", "updatekw", "ior"} -> PutAll(d, o.s)
    [] o.op = "setdefault" -> IF o.k \in Keys(d) THEN d ELSE Put(d, o.k, o.v)
    [] o.op = "clear" -> {}
    [] OTHER -> d
\* does it raise
Fails(d, o) == o.op \in {"delitem", "delattr", "pop", "getitem", "getattr"} /\ o.k \notin Keys(d)
\* keys repr() has to show and must not show
Hidden == {"xall", "funall"}
Shown(d) == Keys(d) \ Hidden
=============================================================================
