------------------------------- MODULE MCJaeger ------------------------------
(* Jaeger headers put together from good and bad parts.                       *)
EXTENDS Jaeger, GenKit
Rep(c, n) == [i \in 1..n |-> c]
Tid == {<<Rep(65, 31) \o <<49>>, TRUE>>, <<<<49>>, TRUE>>, <<<<48, 48>>, FALSE>>, <<Rep(97, 33), FALSE>>, <<<<48>> \o Rep(97, 32), TRUE>>, <<<<45, 49>>, FALSE>>, <<<<48, 120, 49>>, FALSE>>, <<<<32, 49>>, FALSE>>, <<<<49, 95, 48>>, FALSE>>, <<<<1633>>, FALSE>>, <<<<>>, FALSE>>, <<<<122>>, FALSE>>}
Sid == {<<Rep(97, 16), TRUE>>, <<<<102>>, TRUE>>, <<<<48>>, FALSE>>, <<Rep(97, 17), FALSE>>, <<<<45, 49>>, FALSE>>, <<<<49, 32>>, FALSE>>, <<<<43, 49>>, FALSE>>, <<<<>>, FALSE>>}
Par == {<<48>>, <<>>, <<122, 122>>, Rep(97, 16)}
Fl == {<<<<48>>, TRUE, 0>>, <<<<49>>, TRUE, 1>>, <<<<48, 51>>, TRUE, 1>>, <<<<102, 70>>, TRUE, 1>>, <<<<50>>, TRUE, 0>>, <<<<>>, FALSE, 0>>, <<<<120>>, FALSE, 0>>, <<<<45, 49>>, FALSE, 0>>}
MCfgs == {[x |-> 0]}
MInit(c) == [bad |-> {}]
C == <<58>>
Cases == {[h |-> t[1] \o C \o s[1] \o C \o p \o C \o f[1], good |-> t[2] /\ s[2] /\ f[2], fl |-> f[3]] : t \in Tid, s \in Sid, p \in Par, f \in Fl}
         \cup {[h |-> x, good |-> FALSE, fl |-> 0] : x \in {<<>>, C, C \o C \o C, <<49, 58, 49, 58, 49>>, <<49, 58, 49, 58, 49, 58, 49, 58, 49>>}}
MOps(w) == {[op |-> "ext", h |-> r.h, good |-> r.good, fl |-> r.fl] : r \in Cases}
MApply(w, op) == LET x == JExtract(op.h) IN [bad |-> IF x.ok # op.good \/ (x.ok /\ x.flags # op.fl) THEN {op.h} ELSE {}]
Inv == ks.bad = {}
=============================================================================
