----------------------------- MODULE ResultModel ----------------------------
(* Every sequence of operations up to Length; emitted for replay. *)
EXTENDS ResultObj, TLC, Json
CONSTANTS K, V, Length, Ops, Emit
VARIABLES d, log
vars == <<d, log>>
Op(o, k, v, s) == [op |-> o, k |-> k, v |-> v, s |-> s]
Menu == {Op(o, k, v, <<>>) : o \in Ops \intersect {"setitem", "setattr", "setdefault"}, k \in K, v \in V}
        \union {Op(o, k, 0, <<>>) : o \in Ops \intersect {"delitem", "delattr", "pop"}, k \in K}
        \union {Op(o, "", 0, <<<<k, v>>, <<j, w>>>>) : o \in Ops \intersect {"update", "ior"}, k \in K, j \in K, v \in {1}, w \in V}
        \union (IF "clear" \in Ops THEN {Op("clear", "", 0, <<>>)} ELSE {})
Init == d = {} /\ log = <<>>
Do == /\ Len(log) < Length
      /\ \E o \in Menu : d' = After(d, o) /\ log' = Append(log, [o |-> o, fails |-> Fails(d, o), d |-> After(d, o)])
Out == /\ Len(log) = Length /\ Emit /\ PrintT("@@B " \o ToJson(log)) /\ UNCHANGED vars
Spec == Init /\ [][Do \/ Out]_vars
Functional == \A e, f \in d : e[1] = f[1] => e = f
\* an operation touches only the keys it names
Local == [][\A o \in {log'[Len(log')].o} : log' # log => \A k \in K :
              (k # o.k /\ o.op # "clear" /\ \A n \in DOMAIN o.s : o.s[n][1] # k) =>
                 ((k \in Keys(d)) = (k \in Keys(d')) /\ (k \in Keys(d) => Get(d, k) = Get(d', k)))]_vars
\* reading back what was written
ReadBack == [][(log' # log /\ log'[Len(log')].o.op \in {"setitem", "setattr"}) =>
                 (log'[Len(log')].o.k \in Keys(d') /\ Get(d', log'[Len(log')].o.k) = log'[Len(log')].o.v)]_vars
Failing == \A n \in DOMAIN log : log[n].fails => (n = 1 \/ log[n].d = log[n - 1].d)
HiddenNotShown == Shown(d) \intersect Hidden = {}
=============================================================================
