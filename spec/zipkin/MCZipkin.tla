------------------------------ MODULE MCZipkin ------------------------------
(* Exports and shutdowns; sequences are cut to whole elements within bounds.  *)
EXTENDS Zipkin, GenKit
MCfgs == {[enc |-> x, max |-> m, svc |-> "svc", ep |-> [name |-> "", v4 |-> "", v6 |-> "", port |-> 0]] : x \in {"v1", "v2", "proto"}, m \in {0, 1, 2, 7}}
MInit(c) == SInit(c)
MOps(w) == {[op |-> "export", n |-> n, status |-> st] : n \in {0, 1, 2}, st \in {200, 202, 0, 400}} \cup {[op |-> "shutdown", n |-> 0, status |-> 0], [op |-> "flush", n |-> 0, status |-> 0]}
MApply(w, op) == SApply(w, op)
E3 == {<<"s", "ab", 4>>, <<"i", "1", 3>>, <<"n", "", 4>>}
Qs == {<<>>} \cup {<<a>> : a \in E3} \cup {<<a, b>> : a, b \in E3} \cup {<<a, b, c>> : a, b, c \in E3}
RECURSIVE Size(_)
Size(q) == IF q = <<>> THEN 0 ELSE q[1][3] + 1 + Size(Tail(q))
Long(q) == IF q = <<>> THEN 2 ELSE Size(q) + 1
ASSUME \A q \in Qs : \A m \in 2..12 : LET f == Fit(q, m - 2, TRUE) IN f = All(SubSeq(q, 1, Len(f))) /\ Long(SubSeq(q, 1, Len(f))) <= m /\ (Len(f) < Len(q) => Long(SubSeq(q, 1, Len(f) + 1)) > m)
ASSUME Micro(<<1, 999999500>>) = <<2, 0>> /\ Micro(<<1, 499>>) = <<1, 0>> /\ Minus(<<2, 1>>, <<1, 2>>) = <<0, 999999999>>
Inv == ks.closed \in BOOLEAN
=============================================================================
