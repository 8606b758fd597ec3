------------------------------- MODULE MCPrefs -------------------------------
(* Settings, measurements and collections; what is exported as increments     *)
(* adds up to the total, and a totals exporter agrees with it.                *)
EXTENDS Prefs, GenKit
U == [k \in Kinds |-> "u"]
Args == {<<U, U, U>>} \cup {<<U, [U EXCEPT !["h"] = a], [U EXCEPT !["h"] = "dflt"]>> : a \in {"u", "sum", "dflt"}} \cup {<<U, [U EXCEPT !["c"] = "hist"], [U EXCEPT !["c"] = a]>> : a \in {"sum", "last", "drop", "hist5"}} \cup {<<[U EXCEPT ![k] = t], U, U>> : k \in {"c", "ud", "h", "oc", "ou"}, t \in {"c", "d"}}
        \cup {<<U, [U EXCEPT !["c"] = a], U>> : a \in {"drop", "last", "hist", "exp", "hist5"}}
        \cup {<<[U EXCEPT !["h"] = "d"], [U EXCEPT !["h"] = a], U>> : a \in {"sum", "exp", "hist5", "drop"}}
        \cup {<<U, [U EXCEPT !["ou"] = a], U>> : a \in {"last", "drop"}}
Envs == {<<x, t>> : x \in {"grpc", "http"}, t \in {"u", "DELTA", "LowMemory", "bogus"}} \cup {<<x, "DELTA">> : x \in {"console", "mem"}}
MCfgs == {[exp |-> x[1], t |-> x[2], h |-> h, argT |-> a[1], argA |-> a[2], view |-> a[3]] : x \in Envs, h \in {"u", "base2_exponential_bucket_histogram"}, a \in Args}
Vec(v) == [k \in Kinds |-> IF k \in {"ud", "ou"} THEN -v ELSE v]
MInit(c) == [s |-> SInit(c), sent |-> [k \in Kinds |-> 0], out |-> {}]
MOps(w) == {[op |-> "all", v |-> v] : v \in {1, 3}} \cup {[op |-> "rec", k |-> "h", v |-> 2], [op |-> "col"]}
Do(s, op) == IF op.op = "all" THEN [s EXCEPT !.m = [k \in Kinds |-> Add(s.m[k], k, Vec(op.v)[k])]] ELSE SApply(s, op)
MApply(w, op) ==
  LET pts == [k \in Kinds |-> IF MustNot(w.s.c, k, w.s.m[k]) THEN None ELSE Point(w.s.c, k, w.s.m[k])]
      e == IF op.op = "col" THEN [op |-> "col", got |-> pts] ELSE op IN
  [s |-> Do(w.s, e), out |-> SFails(w.s, e),
   sent |-> [k \in Kinds |-> IF op.op = "col" /\ pts[k].type \in {"sum", "hist", "exp"} THEN (IF Temp(w.s.c, k) = "d" THEN w.sent[k] + pts[k].v ELSE pts[k].v) ELSE w.sent[k]]]
Inv == /\ ks.out = {}
       /\ \A k \in Kinds : Type(ks.s.c, k) \in {"sum", "hist", "exp"} => ks.sent[k] + ks.s.m[k].s = ks.s.m[k].ts
=============================================================================
