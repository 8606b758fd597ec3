----------------------------- MODULE MCSpanLife -----------------------------
EXTENDS SpanLife, GenKit
C(ma, me, ml, mea, l, el, r) == [ma |-> ma, me |-> me, ml |-> ml, mea |-> mea, mla |-> 1, len |-> l, elen |-> el, rec |-> r, sts |-> r]
MCfgs == {C(2, 1, 1, 1, 2, 2, TRUE), C(1, 2, 0, -1, -1, -1, FALSE), C(0, 0, -1, 2, 0, 0, TRUE), C(-1, -1, 2, -1, 2, -1, TRUE)}
ExcCfg(s) == s.c.mea = -1 /\ s.c.elen = -1
KV == {<< <<"s:a", <<"s:xyz">> >> >>, << <<"s:b", <<"i:1">> >>, <<"s:a", <<"L", "s:pqr", "n:">> >> >>, << <<"s:c", <<"L", "i:1", "s:x">> >> >>, << <<"s:d", <<"b:true">> >> >>}
Exc(op, k) == [op |-> op, kind |-> k, mod |-> "builtins", qual |-> k, name |-> k, msg |-> "m", ts |-> 0, at |-> 5, expl |-> FALSE]
MOps(s) == IF s.phase = "new" THEN {[op |-> "start", name |-> "n0", kv |-> kv, st |-> 1, links |-> ls] : kv \in {<<>>} \cup KV, ls \in {<<>>, << <<"v:1", <<>> >>, <<"x:0", <<>> >> >>}}
  ELSE {[op |-> "attr", kv |-> kv] : kv \in KV}
  \cup {[op |-> "event", name |-> "e1", ts |-> 3, kv |-> kv] : kv \in {<<>>, << <<"s:b", <<"i:1">> >>, <<"s:a", <<"s:xyz">> >> >>}}
  \cup {[op |-> "link", ctx |-> c, kv |-> <<>>] : c \in {"v:1", "x:0", "t:1"}}
  \cup {[op |-> "name", name |-> "n1"]}
  \cup {[op |-> "status", c |-> c, d |-> d, form |-> f] : c \in {"OK", "ERROR", "UNSET"}, d \in {"n:", "s:d"}, f \in {"code", "obj"}}
  \cup {[op |-> "end", at |-> 9, expl |-> TRUE]}
  \cup {Exc("with", k) : k \in IF ExcCfg(s) THEN {"none", "ValueError", "KeyboardInterrupt"} ELSE {"none"}}
  \cup {[x \in {"eoe", "rec", "sts"} |-> f] @@ Exc("use", k) : k \in IF ExcCfg(s) THEN {"none", "ValueError", "GeneratorExit"} ELSE {"none"}, f \in {TRUE, FALSE}}
Inv == Bounded(ks) /\ StatusOk(ks)
Trans == [][Frozen(ks, ks') /\ OkSticks(ks, ks')]_gvars
=============================================================================
