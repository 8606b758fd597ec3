-------------------------------- MODULE MCTC --------------------------------
(* Trace parent headers put together from good and bad parts; the parser has  *)
(* to accept exactly those whose parts are all good.                          *)
EXTENDS TraceContext, GenKit
Rep(c, n) == [i \in 1..n |-> c]
GT == Rep(97, 31) \o <<49>>
GS == Rep(48, 15) \o <<102>>
Ver == {<<<<48, 48>>, "v0">>, <<<<48, 49>>, "hi">>, <<<<99, 99>>, "hi">>, <<<<102, 102>>, "bad">>, <<<<48>>, "bad">>, <<<<67, 67>>, "bad">>, <<<<48, 48, 48>>, "bad">>}
Tid == {<<GT, TRUE>>, <<Rep(48, 32), FALSE>>, <<Rep(97, 31), FALSE>>, <<Rep(97, 33), FALSE>>, <<Rep(65, 32), FALSE>>, <<Rep(97, 31) \o <<103>>, FALSE>>}
Sid == {<<GS, TRUE>>, <<Rep(48, 16), FALSE>>, <<Rep(97, 15), FALSE>>, <<Rep(97, 17), FALSE>>, <<Rep(97, 15) \o <<70>>, FALSE>>}
Fl == {<<<<48, 48>>, TRUE>>, <<<<48, 49>>, TRUE>>, <<<<102, 102>>, TRUE>>, <<<<49>>, FALSE>>, <<<<48, 49, 49>>, FALSE>>, <<<<48, 71>>, FALSE>>}
Tl == {<<<<>>, "ok">>, <<<<32, 9>>, "ok">>, <<<<45>>, "hi">>, <<<<45, 120, 45, 32>>, "hi">>, <<<<120>>, "bad">>, <<<<10>>, "bad">>, <<<<46, 120>>, "bad">>}
Ld == {<<<<>>, TRUE>>, <<<<9, 32>>, TRUE>>, <<<<45>>, FALSE>>, <<<<10>>, FALSE>>}
TSs == {<<>>, <<<<97, 61, 49>>>>, <<<<97, 61, 49, 44, 66, 61, 50>>>>, <<<<97, 61, 49>>, <<98, 61, 50>>>>}
MCfgs == {[x |-> 0]}
MInit(c) == [bad |-> {}, n |-> 0]
Good(o) == LET v == o.v[2]  t == o.tl[2] IN v # "bad" /\ o.t[2] /\ o.s[2] /\ o.f[2] /\ o.l[2] /\ (t = "ok" \/ (t = "hi" /\ v = "hi"))
Text(o) == o.l[1] \o o.v[1] \o <<45>> \o o.t[1] \o <<45>> \o o.s[1] \o <<45>> \o o.f[1] \o o.tl[1]
Parts == [v : Ver, t : Tid, s : Sid, f : Fl, tl : Tl, l : Ld]
(* at most two parts are bad *)
Few(o) == Cardinality({i \in 1..6 : CASE i = 1 -> o.v[2] = "bad" [] i = 2 -> ~o.t[2] [] i = 3 -> ~o.s[2] [] i = 4 -> ~o.f[2] [] i = 5 -> o.tl[2] # "ok" [] i = 6 -> ~o.l[2]}) <= 2
MOps(w) == {[op |-> "ext", tp |-> Text(o), tsh |-> h, good |-> Good(o)] : o \in {p \in Parts : Few(p)}, h \in TSs}
MApply(w, op) == [bad |-> IF ParseTP(op.tp).ok = op.good THEN {} ELSE {op.tp}, n |-> 1]
Inv == ks.bad = {}
=============================================================================
