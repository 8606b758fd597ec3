------------------------------- MODULE Config --------------------------------
(* Configuration from the environment (R03).  Settings are given as words:    *)
(* "u" unset, "e" empty, otherwise the text (white space around it is noted   *)
(* on its own).  The expected pipeline is a function of them.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Unset(x) == x \in {"u", "e"}
(* -- exporters ------------------------------------------------------------ *)
Known(sig) == IF sig = "metrics" THEN {"fe1", "fe2", "pull", "otlp_proto_grpc", "otlp_proto_http"} ELSE {"fe1", "fe2", "otlp_proto_grpc", "otlp_proto_http"}
Protocol(own, gen) == IF ~Unset(own) THEN own ELSE IF ~Unset(gen) THEN gen ELSE "grpc"
Real(n, p) == IF n # "otlp" THEN n ELSE IF p = "grpc" THEN "otlp_proto_grpc" ELSE IF p = "http/protobuf" THEN "otlp_proto_http" ELSE "?"
(* x: [arg, env, proto] of a signal; env is a sequence of words               *)
Names(x, gen) == {x.arg[i] : i \in 1..Len(x.arg)}
                 \cup (IF x.env \in {<<"u">>, <<"e">>, <<"none">>, <<"None">>} THEN {} ELSE {Real(x.env[i], Protocol(x.proto, gen)) : i \in 1..Len(x.env)})
NamesOk(x, gen, sig) == Names(x, gen) \subseteq Known(sig)
(* -- samplers: whether parents decide, what the root does, in eighths ------ *)
Ratio == [x \in {"0", "0.0", "1", "1.0", "0.5", "0.25", "1e-30"} |-> CASE x \in {"0", "0.0"} -> 0 [] x = "1e-30" -> 1 [] x \in {"1", "1.0"} -> 8 [] x = "0.5" -> 4 [] OTHER -> 2]
(* 1e-30 of 2^64 rounds to nothing                                            *)
Eighths(a) == IF a = "1e-30" THEN 0 ELSE Ratio[a]
S(pb, r) == [pb |-> pb, r |-> r]
Default == S(TRUE, 8)
Lower(n) == CASE n = "ALWAYS_ON" -> "always_on" [] n = "TraceIdRatio" -> "traceidratio" [] n = "PARENTBASED_ALWAYS_OFF" -> "parentbased_always_off" [] OTHER -> n
BuiltIn == {"always_on", "always_off", "parentbased_always_on", "parentbased_always_off", "traceidratio", "parentbased_traceidratio"}
Named(n, a) ==
  CASE n = "always_on" -> {S(FALSE, 8)} [] n = "always_off" -> {S(FALSE, 0)}
    [] n = "parentbased_always_on" -> {S(TRUE, 8)} [] n = "parentbased_always_off" -> {S(TRUE, 0)}
    [] n \in {"traceidratio", "parentbased_traceidratio"} ->
         IF a \in DOMAIN Ratio THEN {S(n # "traceidratio", Eighths(a))} ELSE {S(n # "traceidratio", 8), Default}
    [] OTHER -> {Default}
Samplers(e) ==
  IF e.sampler.given # "u" THEN {IF e.sampler.given = "off" THEN S(FALSE, 0) ELSE S(FALSE, 8)}
  ELSE LET n == e.sampler.name IN
       IF e.op = "init" /\ n = "fsamp" THEN {S(FALSE, IF e.sampler.arg = "yes" THEN 8 ELSE 0)}
       ELSE IF Lower(n) # n \/ (e.op = "tp" /\ e.sampler.padded) THEN Named(Lower(n), e.sampler.arg) \cup {Default}
       ELSE Named(n, e.sampler.arg)
Decide(s, parent, k) == IF s.pb /\ parent # "none" THEN parent \in {"ls", "rs"} ELSE k < s.r
ProbesOk(s, ps) == \A i \in 1..Len(ps) : ps[i].sampled = Decide(s, ps[i].parent, ps[i].k)
(* -- numbers -------------------------------------------------------------- *)
IntOf == [x \in {"1", "2", "3", "7", "40", "100", "0", "-3"} |-> CASE x = "1" -> 1 [] x = "2" -> 2 [] x = "3" -> 3 [] x = "7" -> 7 [] x = "40" -> 40 [] x = "100" -> 100 [] x = "0" -> 0 [] OTHER -> -3]
Num(arg, env, default) == IF arg # "u" THEN IntOf[arg] ELSE IF env \in DOMAIN IntOf THEN IntOf[env] ELSE default
Batch(b) == [q |-> Num(b.arg.q, b.env.q, 2048), d |-> Num(b.arg.d, b.env.d, 5000), b |-> Num(b.arg.b, b.env.b, 512), t |-> Num(b.arg.t, b.env.t, 30000)]
BatchOk(b) == LET n == Batch(b) IN n.q > 0 /\ n.d > 0 /\ n.b > 0 /\ n.b <= n.q
NoArg == [q |-> "u", d |-> "u", b |-> "u", t |-> "u"]
Near(a, b) == a - b \in -3..3
(* -- a whole configuration ------------------------------------------------- *)
Sigs == {"traces", "metrics", "logs"}
Unknown(e) == \E g \in Sigs : ~NamesOk(e.x[g], e.proto, g)
GenBad(e) == e.idgen.given = "u" /\ e.idgen.name \notin {"u", "e", "random", "fgen"}
Inconsistent(e) == \/ Names(e.x["traces"], e.proto) # {} /\ ~BatchOk([arg |-> NoArg, env |-> e.bsp])
                   \/ Names(e.x["logs"], e.proto) # {} /\ ~BatchOk([arg |-> NoArg, env |-> e.blrp])
                   \/ Names(e.x["metrics"], e.proto) \ {"pull"} # {} /\ e.interval \in {"0", "-3"}
Doubtful(e) == (\E g \in Sigs : \E i \in 1..Len(e.x[g].env) : e.x[g].env[i] = "") \/ e.idgen.name = "e"
Times(l, n) == Cardinality({i \in 1..Len(l) : l[i] = n})
Got(e, g) == {e.got[g][i] : i \in 1..Len(e.got[g])}
InitFails(e) ==
  IF e.raised THEN (IF Unknown(e) \/ GenBad(e) \/ Inconsistent(e) \/ Doubtful(e) THEN {} ELSE {"valid-configuration-rejected"})
  ELSE (IF (Unknown(e) \/ GenBad(e) \/ Inconsistent(e)) /\ ~Doubtful(e) THEN {"invalid-configuration-accepted"} ELSE {})
       \cup (IF Doubtful(e) THEN {} ELSE
             (IF \E g \in Sigs : Got(e, g) # Names(e.x[g], e.proto) THEN {"wrong-exporters"} ELSE {})
             \cup (IF \E g \in Sigs : \E n \in Got(e, g) : Times(e.got[g], n) # 1 THEN {"pipeline-doubled"} ELSE {})
             \cup (IF ~\E s \in Samplers(e) : ProbesOk(s, e.probes) THEN {"wrong-sampler"} ELSE {})
             \cup (IF Samplers(e) \cap {Default} = Samplers(e) /\ ~Unset(e.sampler.name) /\ Lower(e.sampler.name) \notin BuiltIn /\ e.sampler.given = "u" /\ ~e.warned THEN {"no-warning"} ELSE {})
             \cup (IF e.ids # (IF e.idgen.given # "u" THEN e.idgen.given ELSE IF e.idgen.name = "fgen" THEN "fgen" ELSE "random") THEN {"wrong-id-generator"} ELSE {})
             \cup (IF \E g \in Sigs : \E n \in Names(e.x[g], e.proto) \ {"pull"} :
                       Times(e.delivered[g], n) # (IF e.disabled THEN 0 ELSE IF g = "traces" /\ ~e.sampled THEN 0 ELSE 1) THEN {"telemetry-not-delivered-once"} ELSE {})
             \cup (IF e.handler # (e.autolog = "true") THEN {"wrong-logging-handler"} ELSE {})
             \cup (IF ~e.resource THEN {"wrong-resource"} ELSE {}))
BatchFails(e) ==
  LET n == Batch(e) IN
  IF e.raised THEN (IF BatchOk(e) THEN {"valid-settings-rejected"} ELSE {})
  ELSE IF ~BatchOk(e) THEN {"invalid-settings-accepted"}
  ELSE (IF e.m.total # n.q THEN {"wrong-queue-size"} ELSE {})
       \cup (IF e.m.batch # n.b THEN {"wrong-batch-size"} ELSE {})
       \cup (IF n.b > 1 /\ ~Near(e.m.delay, n.d) THEN {"wrong-delay"} ELSE {})
       \cup (IF n.t > 0 /\ ~Near(e.m.timeout, n.t) THEN {"wrong-timeout"} ELSE {})
MetricFails(e) ==
  LET iv == Num(e.arg.interval, e.env.interval, 60000)  t == Num(e.arg.timeout, e.env.timeout, 30000)
      inf == e.arg.interval = "u" /\ e.env.interval = "inf"  bad == ~inf /\ (iv <= 0) IN
  IF e.raised THEN (IF bad \/ e.env.interval = "nan" THEN {} ELSE {"valid-settings-rejected"})
  ELSE IF bad THEN {"invalid-settings-accepted"}
  ELSE (IF inf THEN (IF e.first # -1 THEN {"wrong-interval"} ELSE {}) ELSE IF ~Near(e.first, iv) THEN {"wrong-interval"} ELSE {})
       \cup (IF e.first # -1 /\ t > 0 /\ ~Near(e.timeout, t) THEN {"wrong-timeout"} ELSE {})
(* limits: "n" no limit                                                        *)
Lim(arg, env, default) == LET x == IF arg # "u" THEN arg ELSE IF env = "u" THEN default ELSE IF env = "e" THEN "n" ELSE env IN x
LimitFails(e) ==
  LET a == Lim(e.arg.n, e.env.n, "128")  l == Lim(e.arg.l, e.env.l, "n")
      bad == {a, l} \cap {"abc", "1.5", "-3", "-5"} # {} IN
  IF e.raised THEN (IF bad THEN {} ELSE {"valid-settings-rejected"})
  ELSE IF bad THEN {"invalid-settings-accepted"}
  ELSE (IF a # "n" /\ e.v.n # a THEN {"wrong-count-limit"} ELSE {}) \cup (IF e.v.l # l THEN {"wrong-length-limit"} ELSE {})
SInit(c) == [x |-> 0]
SFails(s, e) ==
  CASE e.op = "init" -> InitFails(e)
    [] e.op = "tp" -> IF e.raised THEN {"provider-raised"} ELSE IF ~\E x \in Samplers(e) : ProbesOk(x, e.probes) THEN {"wrong-sampler"} ELSE {}
    [] e.op = "batch" -> BatchFails(e)
    [] e.op = "metric" -> MetricFails(e)
    [] e.op = "limits" -> LimitFails(e)
    [] e.op = "fail" -> {e.what}
SApply(s, e) == s
=============================================================================
