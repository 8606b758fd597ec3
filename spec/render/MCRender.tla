------------------------------ MODULE MCRender ------------------------------
(* Exports of batches drawn from an alphabet of items; a document names each   *)
(* field once, and different items have different documents.                   *)
EXTENDS Render, GenKit
B(n, k) == [j \in 1..n |-> IF j = n THEN k ELSE 0]
A1 == <<<<"k", <<<<<<>>, "i:1">>>>>>>>
A2 == <<<<"k", <<<<<<"0">>, "s:x">>, <<<<"1">>, "s:y">>>>>>, <<"e", <<<<<<>>, "[]">>>>>>>>
R0 == [attrs |-> <<>>, url |-> ""]
R1 == [attrs |-> A1, url |-> "u"]
S0 == [t |-> "span", name |-> "a", ctx |-> [tid |-> B(16, 1), sid |-> B(8, 1), ts |-> <<>>], kind |-> "INTERNAL", parent |-> <<>>, start |-> <<0, 0>>, end |-> <<1, 1000>>, status |-> "UNSET", desc |-> "", attrs |-> <<>>, events |-> <<>>, links |-> <<>>, res |-> R0]
E0 == [name |-> "e", at |-> <<951782400, 999999999>>, attrs |-> A1]
K0 == [tid |-> B(16, 171), sid |-> B(8, 16), ts |-> <<<<"a", "1">>, <<"b", "2">>>>, attrs |-> <<>>]
L0 == [t |-> "log", bodyt |-> "json", bytes |-> <<>>, body |-> <<<<<<>>, "s:b">>>>, sev |-> "i:9", stext |-> "s:INFO", attrs |-> <<>>, dropped |-> "i:0", at |-> <<1, 0>>, obs |-> <<2, 5000>>, tid |-> <<>>, sid |-> <<>>, flags |-> "n:", res |-> R0]
P0 == [attrs |-> A1, ex |-> <<>>, f |-> <<<<<<"start_time_unix_nano">>, "i:1">>, <<<<"time_unix_nano">>, "i:2">>, <<<<"value">>, "i:5">>>>, ls |-> <<>>]
M0(k) == [name |-> "m", desc |-> "d", unit |-> "", kind |-> k, temp |-> "i:2", mono |-> "b:true", points |-> <<P0>>]
MM(q) == [t |-> "metrics", rms |-> <<[res |-> R1, surl |-> "z", scopes |-> <<[name |-> "s", version |-> "n:", url |-> "", attrs |-> <<>>, surl |-> "q", metrics |-> q]>>]>>]
Spans == {S0, [S0 EXCEPT !.parent = B(8, 2)], [S0 EXCEPT !.status = "ERROR", !.desc = "why"], [S0 EXCEPT !.status = "ERROR"], [S0 EXCEPT !.status = "OK"], [S0 EXCEPT !.attrs = A2, !.kind = "CLIENT"], [S0 EXCEPT !.events = <<E0>>], [S0 EXCEPT !.events = <<E0, [E0 EXCEPT !.attrs = <<>>]>>], [S0 EXCEPT !.links = <<K0>>, !.res = R1],
          [S0 EXCEPT !.ctx.ts = <<<<"a", "1">>>>], [S0 EXCEPT !.end = <<>>], [S0 EXCEPT !.end = <<68169599, 999999000>>]}
Logs == {L0, [L0 EXCEPT !.at = <<>>], [L0 EXCEPT !.bodyt = "bytes", !.bytes = <<255, 0, 1, 7>>], [L0 EXCEPT !.bodyt = "bytes", !.bytes = <<1, 2, 3>>], [L0 EXCEPT !.bodyt = "bytes", !.bytes = <<9, 8>>], [L0 EXCEPT !.body = <<<<<<>>, "n:">>>>], [L0 EXCEPT !.body = <<<<<<"k", "0">>, "i:1">>>>],
         [L0 EXCEPT !.attrs = A1, !.dropped = "i:2"], [L0 EXCEPT !.tid = B(16, 3), !.sid = B(8, 4), !.flags = "i:1"], [L0 EXCEPT !.sev = "n:", !.stext = "n:"], [L0 EXCEPT !.at = <<0, 0>>], [L0 EXCEPT !.bodyt = "obj", !.body = <<<<<<>>, "s:<obj>">>>>]}
Mets == {MM(<<>>), MM(<<M0("sum")>>), MM(<<M0("gauge")>>), MM(<<M0("gauge"), M0("sum")>>), [t |-> "metrics", rms |-> <<>>]}
MCfgs == {[kind |-> x] : x \in {"span", "log", "metrics"}}
MInit(c) == [s |-> SInit(c), sent |-> 0]
Of(c) == CASE c.kind = "span" -> Spans [] c.kind = "log" -> Logs [] OTHER -> Mets
Batches(c) == {<<x>> : x \in Of(c)} \cup (IF c.kind = "metrics" THEN {} ELSE {<<>>} \cup {<<x, y>> : x \in Of(c), y \in Of(c)})
MOps(w) == {[op |-> "export", items |-> b] : b \in Batches(w.s.c)}
MApply(w, op) == [s |-> SApply(w.s, op), sent |-> w.sent + Len(op.items)]
Inv == ks.s.n = ks.sent
Doc(i) == Leaves(i)
ASSUME \A i \in Spans \cup Logs \cup Mets : Cardinality(Doc(i)) = Cardinality(Paths(Doc(i)))
ASSUME \A X \in {Spans, Logs, Mets} : \A i, j \in X : i # j => Doc(i) # Doc(j)
(* no leaf's path is the beginning of another's: the leaves make one tree      *)
ASSUME \A i \in Spans \cup Logs \cup Mets : \A p, q \in Paths(Doc(i)) : p # q => ~(Len(p) < Len(q) /\ SubSeq(q, 1, Len(p)) = p)
ASSUME Iso(0, 0) = "1970-01-01T00:00:00.000000Z" /\ Iso(951782400, 5) = "2000-02-29T00:00:00.000005Z" /\ Iso(1700000000, 999999) = "2023-11-14T22:13:20.999999Z" /\ Iso(2147483647, 1) = "2038-01-19T03:14:07.000001Z"
ASSUME B64(<<102, 111, 111>>) = "Zm9v" /\ B64(<<102>>) = "Zg==" /\ B64(<<102, 111, 111, 98, 97>>) = "Zm9vYmE="
=============================================================================
