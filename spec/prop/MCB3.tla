--------------------------------- MODULE MCB3 --------------------------------
(* B3 headers put together from good and bad parts.                           *)
EXTENDS B3, GenKit
Rep(c, n) == [i \in 1..n |-> c]
Tid == {<<Rep(65, 31) \o <<49>>, TRUE>>, <<Rep(97, 15) \o <<49>>, TRUE>>, <<Rep(48, 32), FALSE>>, <<Rep(48, 16), FALSE>>, <<Rep(97, 31), FALSE>>, <<Rep(97, 17), FALSE>>, <<Rep(97, 31) \o <<103>>, FALSE>>, <<Rep(97, 31) \o <<1633>>, FALSE>>, <<<<>>, FALSE>>}
Sid == {<<Rep(48, 15) \o <<70>>, TRUE>>, <<Rep(48, 16), FALSE>>, <<Rep(97, 15), FALSE>>, <<Rep(97, 17), FALSE>>, <<Rep(1632, 15) \o <<1633>>, FALSE>>, <<<<>>, FALSE>>}
Smp == {<<<<49>>, TRUE>>, <<<<48>>, FALSE>>, <<<<100>>, TRUE>>, <<<<116, 114, 117, 101>>, TRUE>>, <<<<84, 114, 117, 101>>, TRUE>>, <<<<102, 97, 108, 115, 101>>, FALSE>>, <<<<120>>, FALSE>>, <<<<>>, FALSE>>}
MCfgs == {[x |-> 0]}
MInit(c) == [bad |-> {}]
D == <<45>>
Single == {[h |-> [single |-> t[1] \o D \o s[1] \o (IF k = 2 THEN <<>> ELSE D \o m[1]) \o (IF k >= 4 THEN D \o Rep(98, 16) ELSE <<>>) \o (IF k = 5 THEN D ELSE <<>>), tid |-> o, sid |-> o, sampled |-> <<>>, flags |-> <<>>],
            good |-> t[2] /\ s[2] /\ k # 5, fl |-> (IF k = 2 \/ m[2] THEN 1 ELSE 0)] : t \in Tid, s \in Sid, m \in Smp, k \in 2..5, o \in {<<>>, Rep(99, 16)}}
Multi == {[h |-> [single |-> <<>>, tid |-> t[1], sid |-> s[1], sampled |-> m[1], flags |-> f], good |-> t[2] /\ s[2], fl |-> IF m[2] \/ f = <<49>> THEN 1 ELSE 0]
            : t \in Tid, s \in Sid, m \in Smp, f \in {<<>>, <<48>>, <<49>>, <<120>>}}
Alone == {[h |-> [single |-> x, tid |-> Rep(99, 16), sid |-> Rep(99, 16), sampled |-> <<49>>, flags |-> <<>>], good |-> FALSE, fl |-> 0] : x \in {<<48>>, <<49>>, <<100>>, <<45>>, <<45, 45>>}}
MOps(w) == {[op |-> "ext", h |-> r.h, good |-> r.good, fl |-> r.fl] : r \in Single \cup Multi \cup Alone}
MApply(w, op) == LET x == Extract(op.h) IN [bad |-> IF x.ok # op.good \/ (x.ok /\ x.flags # op.fl) THEN {op.h} ELSE {}]
Inv == ks.bad = {}
=============================================================================
