------------------------------ MODULE MCConfig -------------------------------
(* The product of small sets of settings, signal by signal and aspect by      *)
(* aspect; determinism and defaults of the expected pipeline.                 *)
EXTENDS Config, GenKit
X0 == [arg |-> <<>>, env |-> <<"u">>, proto |-> "u"]
None4 == NoArg
D == [op |-> "init", x |-> [traces |-> X0, metrics |-> X0, logs |-> X0], proto |-> "u", sampler |-> [given |-> "u", name |-> "u", arg |-> "u", padded |-> FALSE],
      idgen |-> [given |-> "u", name |-> "u"], bsp |-> None4, blrp |-> None4, interval |-> "u", autolog |-> "u", disabled |-> FALSE]
Envs == {<<"u">>, <<"e">>, <<"none">>, <<"None">>, <<"fe1">>, <<"fe1", "fe2">>, <<"fe1", "fe1">>, <<"otlp">>, <<"otlp", "fe2">>, <<"otlp", "otlp_proto_grpc">>, <<"otlp_proto_http">>, <<"nothere">>, <<"fe1", "none">>, <<"notexp">>}
Protos == {"u", "e", "grpc", "http/protobuf", "http/json"}
Names5 == {"u", "e", "always_on", "always_off", "parentbased_always_on", "parentbased_always_off", "traceidratio", "parentbased_traceidratio", "nothere", "fsamp", "fbad", "fraise", "ALWAYS_ON", "TraceIdRatio"}
Args == {"u", "e", "0", "1.0", "0.5", "abc", "2.0", "-1", "nan", "inf", "yes", "1e-30"}
Nums == {"u", "2", "7", "0", "abc"}
MCfgs == {[x |-> 0]}
MInit(c) == [n |-> 0, bad |-> {}]
Exp == {[D EXCEPT !.x[g] = [arg |-> a, env |-> v, proto |-> p], !.proto = q] : g \in Sigs, a \in {<<>>, <<"fe2">>}, v \in Envs, p \in Protos, q \in Protos}
Smp == {[D EXCEPT !.sampler = [given |-> gv, name |-> n, arg |-> a, padded |-> pd], !.x["traces"].env = <<"fe1">>] : gv \in {"u", "off"}, n \in Names5, a \in Args, pd \in {FALSE, TRUE}}
Tps == {[op |-> "tp", sampler |-> [given |-> "u", name |-> n, arg |-> a, padded |-> pd]] : n \in Names5, a \in Args, pd \in {FALSE, TRUE}}
Gens == {[D EXCEPT !.idgen = [given |-> gv, name |-> n], !.x["traces"].env = <<"fe1">>, !.autolog = al, !.disabled = di, !.x["metrics"].env = m, !.x["logs"].env = <<"fe2">>] : gv \in {"u", "mine"}, n \in {"u", "e", "random", "fgen", "nothere", "notgen"}, al \in {"u", "true", "false"}, di \in BOOLEAN, m \in {<<"pull">>, <<"fe1">>}}
Bts == {[op |-> "batch", kind |-> k, arg |-> [q |-> aq, d |-> "u", b |-> ab, t |-> at], env |-> [q |-> eq, d |-> ed, b |-> eb, t |-> at2]] : k \in {"span", "log"}, aq \in {"u", "3", "0"}, ab \in {"u", "2"}, at \in {"u"}, eq \in Nums, ed \in {"u", "40", "abc", "-3"}, eb \in Nums, at2 \in {"u", "100", "abc"}}
Inc == {[D EXCEPT !.x[g].env = <<"fe1">>, !.bsp = [None4 EXCEPT !.q = a, !.b = b], !.blrp = [None4 EXCEPT !.q = c, !.b = b], !.interval = i] : g \in Sigs, a \in {"u", "3", "0"}, b \in {"u", "7", "-3"}, c \in {"u", "3"}, i \in {"u", "0", "40", "abc"}}
MOps(w) == IF w.n > 0 THEN {} ELSE Exp \cup Smp \cup Tps \cup Gens \cup Bts \cup Inc
Bad(e) ==
  CASE e.op \in {"init", "tp"} ->
        (IF Samplers(e) = {} \/ (e.sampler.given = "u" /\ Unset(e.sampler.name) /\ Samplers(e) # {Default}) THEN {"sampler"} ELSE {})
        \cup (IF e.op = "tp" THEN {} ELSE
              (IF \E g \in Sigs : e.x[g].arg = <<>> /\ e.x[g].env \in {<<"u">>, <<"none">>} /\ Names(e.x[g], e.proto) # {} THEN {"unset-has-pipeline"} ELSE {})
              \cup (IF \E g \in Sigs : e.x[g].env = <<"otlp">> /\ ~Unset(e.x[g].proto) /\ Names(e.x[g], "grpc") # Names(e.x[g], "http/protobuf") THEN {"general-over-specific"} ELSE {})
              \cup (IF \E g \in Sigs : e.x[g].env = <<"otlp">> /\ Unset(e.x[g].proto) /\ Unset(e.proto) /\ "otlp_proto_grpc" \notin Names(e.x[g], e.proto) THEN {"default"} ELSE {}))
    [] e.op = "batch" -> IF BatchOk(e) # (Batch(e).q \in 1..2048 /\ Batch(e).d >= 1 /\ Batch(e).b \in 1..Batch(e).q) THEN {"batch"} ELSE {}
MApply(w, e) == [n |-> 1, bad |-> Bad(e)]
Inv == ks.bad = {}
=============================================================================
