-------------------------------- MODULE Prefs --------------------------------
(* Temporality and aggregation preferences, end to end (E06): what leaves an   *)
(* exporter after a history of measurements and collections.                   *)
(* cfg: exp  "grpc" "http" (OTLP: the environment counts) "console" "mem"      *)
(*      t, h the environment's temporality and histogram words                 *)
(*      argT, argA per kind: "u" or the preference given as an argument        *)
(*      view       per kind: "u" or the aggregation a view gives the instrument*)
(* Kinds: c ud h g (synchronous), oc ou og (observed through callbacks)        *)
(* Operations: rec k v (measure, or change what the callback reports by v; a   *)
(* gauge is set to v), col got (collected: got[k] what was exported)           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Kinds == {"c", "ud", "h", "g", "oc", "ou", "og"}
Async == {"oc", "ou", "og"}
Otlp(c) == c.exp \in {"grpc", "http"}
EnvT(w, k) ==
  CASE w \in {"DELTA", "delta", " Delta "} -> IF k \in {"c", "h", "oc"} THEN "d" ELSE "c"
    [] w \in {"LOWMEMORY", "LowMemory"} -> IF k \in {"c", "h"} THEN "d" ELSE "c"
    [] OTHER -> "c"
Temp(c, k) == IF c.argT[k] # "u" THEN c.argT[k] ELSE IF Otlp(c) THEN EnvT(c.t, k) ELSE "c"
Agg(c, k) ==
  IF c.view[k] \notin {"u", "dflt"} THEN c.view[k]
  ELSE IF c.argA[k] \notin {"u", "dflt"} THEN c.argA[k]
  ELSE IF k = "h" THEN (IF c.argA[k] = "u" /\ Otlp(c) /\ c.h = "base2_exponential_bucket_histogram" THEN "exp" ELSE "hist")
  ELSE IF k \in {"g", "og"} THEN "last" ELSE "sum"
Type(c, k) == CASE Agg(c, k) = "last" -> "gauge" [] Agg(c, k) = "hist5" -> "hist" [] OTHER -> Agg(c, k)
(* whether a histogram's values add up monotonically is left open             *)
Mono(k) == k \in {"c", "h", "oc"}
(* -- measurements: the last value, its count and sum, since last and in all - *)
Z == [last |-> 0, n |-> 0, s |-> 0, tn |-> 0, ts |-> 0]
Add(m, k, v) == [last |-> IF k \in {"og", "g"} THEN v ELSE IF k \in Async THEN m.ts + v ELSE v, n |-> m.n + 1, s |-> m.s + v, tn |-> m.tn + 1, ts |-> m.ts + v]
Flush(m) == [m EXCEPT !.n = 0, !.s = 0]
None == [type |-> "none", temp |-> "", mono |-> FALSE, v |-> 0, n |-> 0, bounds |-> 0]
(* the point of kind k, given the measurements                                *)
Point(c, k, m) ==
  LET ty == Type(c, k)  d == Temp(c, k) = "d" IN
  CASE ty = "drop" -> None
    [] ty = "gauge" -> [None EXCEPT !.type = "gauge", !.v = m.last]
    [] ty = "sum" -> [None EXCEPT !.type = "sum", !.temp = Temp(c, k), !.mono = Mono(k), !.v = IF d THEN m.s ELSE m.ts]
    [] ty = "hist" -> [None EXCEPT !.type = "hist", !.temp = Temp(c, k), !.v = IF d THEN m.s ELSE m.ts, !.n = IF d THEN m.n ELSE m.tn, !.bounds = IF Agg(c, k) = "hist5" THEN 1 ELSE 15]
    [] OTHER -> [None EXCEPT !.type = "exp", !.temp = Temp(c, k), !.v = IF d THEN m.s ELSE m.ts, !.n = IF d THEN m.n ELSE m.tn]
(* whether a point must, or must not, be there                                *)
Must(c, k, m) == Type(c, k) # "drop" /\ (m.n > 0 \/ (m.tn > 0 /\ Type(c, k) # "gauge" /\ Temp(c, k) = "c"))
MustNot(c, k, m) == Type(c, k) = "drop" \/ m.tn = 0
SInit(c) == [c |-> c, m |-> [k \in Kinds |-> Z]]
KindFails(c, k, m, g) ==
  IF g.type = "none" THEN (IF Must(c, k, m) THEN {"point-missing"} ELSE {})
  ELSE IF MustNot(c, k, m) THEN {"point-unexpected"}
  ELSE LET p == Point(c, k, m) IN
       IF g.type # p.type THEN {"wrong-aggregation"}
       ELSE (IF g.temp # p.temp THEN {"wrong-temporality"} ELSE {})
            \cup (IF g.mono # p.mono /\ k # "h" THEN {"wrong-monotonicity"} ELSE {})
            \cup (IF g.n # p.n \/ g.bounds # p.bounds \/ g.v # p.v THEN {"wrong-value"} ELSE {})
SFails(s, e) ==
  CASE e.op = "col" -> UNION {KindFails(s.c, k, s.m[k], e.got[k]) : k \in Kinds}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) ==
  CASE e.op = "rec" -> [s EXCEPT !.m[e.k] = Add(@, e.k, e.v)]
    [] e.op = "col" -> [s EXCEPT !.m = [k \in Kinds |-> Flush(s.m[k])]]
    [] OTHER -> s
=============================================================================
