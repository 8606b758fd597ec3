-------------------------------- MODULE Render --------------------------------
(* The JSON documents of the console exporters (E07): one per item, in order,   *)
(* flushed when export returns, holding the item's fields exactly.              *)
(* A document is the set of its leaves <<path, text>>: a path is a sequence of  *)
(* member names and positions, a text is a tagged value ("s:abc" "i:5" "f:1.5"  *)
(* "b:true" "n:" and "{}" "[]" for what is empty).                              *)
(* Items (t): "span", "log", "metrics"; attributes: <<key, leaves>> pairs where *)
(* the leaves of a value are <<subpath, text>>; times: <<seconds, nanos>>;      *)
(* identifiers: sequences of bytes; optional fields: empty sequence when unset. *)
(* Operations: export items docs (docs: what the stream gained)                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digits == "0123456789abcdef"
RECURSIVE Hex(_), Pad(_, _), Join(_, _)
Hex(b) == IF b = <<>> THEN "" ELSE SubSeq(Digits, Head(b) \div 16 + 1, Head(b) \div 16 + 1) \o SubSeq(Digits, (Head(b) % 16) + 1, (Head(b) % 16) + 1) \o Hex(Tail(b))
Pad(n, w) == IF w = 0 THEN "" ELSE Pad(n \div 10, w - 1) \o SubSeq(Digits, (n % 10) + 1, (n % 10) + 1)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
(* -- seconds and microseconds since 1970 as a UTC date (proleptic Gregorian) - *)
Iso(s, us) ==
  LET z == s \div 86400 + 719468
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
      y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
      r == s % 86400 IN
  Pad(y, 4) \o "-" \o Pad(m, 2) \o "-" \o Pad(d, 2) \o "T" \o Pad(r \div 3600, 2) \o ":" \o Pad((r \div 60) % 60, 2) \o ":" \o Pad(r % 60, 2) \o "." \o Pad(us, 6) \o "Z"
(* the microsecond below or above                                              *)
Time(t) == {"s:" \o Iso(t[1], t[2] \div 1000),
            IF t[2] % 1000 = 0 THEN "s:" \o Iso(t[1], t[2] \div 1000)
            ELSE IF t[2] \div 1000 = 999999 THEN "s:" \o Iso(t[1] + 1, 0) ELSE "s:" \o Iso(t[1], t[2] \div 1000 + 1)}
OptTime(t) == IF t = <<>> THEN {"n:"} ELSE Time(t)
(* -- base64 of a sequence of bytes ------------------------------------------- *)
B64c == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
C64(n) == SubSeq(B64c, n + 1, n + 1)
RECURSIVE B64(_)
B64(b) ==
  CASE Len(b) = 0 -> ""
    [] Len(b) = 1 -> C64(b[1] \div 4) \o C64((b[1] % 4) * 16) \o "=="
    [] Len(b) = 2 -> C64(b[1] \div 4) \o C64((b[1] % 4) * 16 + b[2] \div 16) \o C64((b[2] % 16) * 4) \o "="
    [] OTHER -> C64(b[1] \div 4) \o C64((b[1] % 4) * 16 + b[2] \div 16) \o C64((b[2] % 16) * 4 + b[3] \div 64) \o C64(b[3] % 64) \o B64(SubSeq(b, 4, Len(b)))
(* -- expected leaves: <<path, allowed texts>> --------------------------------- *)
L(p, x) == {<<p, {x}>>}
Ix(k) == ToString(k - 1)
Attrs(p, as) == IF as = <<>> THEN L(p, "{}") ELSE UNION {UNION {L(p \o <<as[k][1]>> \o as[k][2][j][1], as[k][2][j][2]) : j \in 1..Len(as[k][2])} : k \in 1..Len(as)}
OAttrs(p, as) == IF as = <<>> THEN {<<p, {"{}", "n:"}>>} ELSE Attrs(p, as)
NAttrs(p, as) == IF as = <<>> THEN L(p, "n:") ELSE Attrs(p, as)
Resource(p, r) == Attrs(p \o <<"attributes">>, r.attrs) \cup L(p \o <<"schema_url">>, "s:" \o r.url)
TState(q) == "[" \o Join([k \in 1..Len(q) |-> "'{key=" \o q[k][1] \o ", value=" \o q[k][2] \o "}'"], ", ") \o "]"
Ctx(p, x) == L(p \o <<"trace_id">>, "s:0x" \o Hex(x.tid)) \cup L(p \o <<"span_id">>, "s:0x" \o Hex(x.sid)) \cup L(p \o <<"trace_state">>, "s:" \o TState(x.ts))
List(p, q, F(_, _)) == IF q = <<>> THEN L(p, "[]") ELSE UNION {F(p \o <<Ix(k)>>, q[k]) : k \in 1..Len(q)}
EventL(p, e) == L(p \o <<"name">>, "s:" \o e.name) \cup {<<p \o <<"timestamp">>, Time(e.at)>>} \cup Attrs(p \o <<"attributes">>, e.attrs)
LinkL(p, x) == Ctx(p \o <<"context">>, x) \cup OAttrs(p \o <<"attributes">>, x.attrs)
SpanL(i) ==
  L(<<"name">>, "s:" \o i.name) \cup Ctx(<<"context">>, i.ctx) \cup L(<<"kind">>, "s:SpanKind." \o i.kind)
  \cup L(<<"parent_id">>, IF i.parent = <<>> THEN "n:" ELSE "s:0x" \o Hex(i.parent))
  \cup {<<<<"start_time">>, OptTime(i.start)>>, <<<<"end_time">>, OptTime(i.end)>>}
  \cup L(<<"status", "status_code">>, "s:" \o i.status) \cup (IF i.status = "ERROR" /\ i.desc # "" THEN L(<<"status", "description">>, "s:" \o i.desc) ELSE {})
  \cup Attrs(<<"attributes">>, i.attrs) \cup List(<<"events">>, i.events, EventL) \cup List(<<"links">>, i.links, LinkL) \cup Resource(<<"resource">>, i.res)
(* a log record's body: leaves of what JSON has; bytes in base64; another       *)
(* object's text                                                               *)
LogL(i) ==
  (IF i.bodyt = "bytes" THEN L(<<"body">>, "s:" \o B64(i.bytes)) ELSE {<<(<<"body">> \o i.body[k][1]), {i.body[k][2]}>> : k \in 1..Len(i.body)})
  \cup L(<<"severity_number">>, i.sev) \cup L(<<"severity_text">>, i.stext) \cup NAttrs(<<"attributes">>, i.attrs) \cup L(<<"dropped_attributes">>, i.dropped)
  \cup {<<<<"timestamp">>, OptTime(i.at)>>, <<<<"observed_timestamp">>, OptTime(i.obs)>>}
  \cup L(<<"trace_id">>, IF i.tid = <<>> THEN "s:" ELSE "s:0x" \o Hex(i.tid)) \cup L(<<"span_id">>, IF i.sid = <<>> THEN "s:" ELSE "s:0x" \o Hex(i.sid))
  \cup L(<<"trace_flags">>, i.flags) \cup Resource(<<"resource">>, i.res)
ExL(p, x) == Attrs(p \o <<"filtered_attributes">>, x.attrs) \cup L(p \o <<"value">>, x.v) \cup L(p \o <<"time_unix_nano">>, x.t) \cup L(p \o <<"span_id">>, x.sid) \cup L(p \o <<"trace_id">>, x.tid)
Txts(p, q) == IF q = <<>> THEN L(p, "[]") ELSE UNION {L(p \o <<Ix(k)>>, q[k]) : k \in 1..Len(q)}
(* a point: attributes, exemplars, and its fields as <<name, text>> or lists    *)
PointL(p, x) == Attrs(p \o <<"attributes">>, x.attrs) \cup List(p \o <<"exemplars">>, x.ex, ExL)
                \cup UNION {L(p \o x.f[k][1], x.f[k][2]) : k \in 1..Len(x.f)} \cup UNION {Txts(p \o x.ls[k][1], x.ls[k][2]) : k \in 1..Len(x.ls)}
MetricL(p, m) == L(p \o <<"name">>, "s:" \o m.name) \cup L(p \o <<"description">>, "s:" \o m.desc) \cup L(p \o <<"unit">>, "s:" \o m.unit)
                 \cup List(p \o <<"data", "data_points">>, m.points, PointL)
                 \cup (IF m.kind = "gauge" THEN {} ELSE L(p \o <<"data", "aggregation_temporality">>, m.temp))
                 \cup (IF m.kind = "sum" THEN L(p \o <<"data", "is_monotonic">>, m.mono) ELSE {})
ScopeL(p, s) == L(p \o <<"scope", "name">>, "s:" \o s.name) \cup L(p \o <<"scope", "version">>, s.version) \cup L(p \o <<"scope", "schema_url">>, "s:" \o s.url) \cup NAttrs(p \o <<"scope", "attributes">>, s.attrs)
                \cup L(p \o <<"schema_url">>, "s:" \o s.surl) \cup List(p \o <<"metrics">>, s.metrics, MetricL)
ResL(p, r) == Resource(p \o <<"resource">>, r.res) \cup L(p \o <<"schema_url">>, "s:" \o r.surl) \cup List(p \o <<"scope_metrics">>, r.scopes, ScopeL)
MetricsL(i) == List(<<"resource_metrics">>, i.rms, ResL)
Leaves(i) == CASE i.t = "span" -> SpanL(i) [] i.t = "log" -> LogL(i) [] OTHER -> MetricsL(i)
(* -- judging ------------------------------------------------------------------ *)
Paths(E) == {x[1] : x \in E}
DocFails(i, d) ==
  LET E == Leaves(i)  D == {<<d[k][1], d[k][2]>> : k \in 1..Len(d)} IN
  (IF Paths(E) \ Paths(D) # {} THEN {"field-missing"} ELSE {}) \cup (IF Paths(D) \ Paths(E) # {} THEN {"field-unknown"} ELSE {})
  \cup (IF \E x \in E : \E y \in D : x[1] = y[1] /\ y[2] \notin x[2] THEN {"wrong-value"} ELSE {})
SInit(c) == [c |-> c, n |-> 0]
SFails(s, e) ==
  CASE e.op = "export" ->
         IF e.raised THEN {"export-raised"}
         ELSE IF Len(e.docs) # Len(e.items) THEN {"not-one-document-per-item"}
         ELSE UNION {DocFails(e.items[k], e.docs[k]) : k \in 1..Len(e.items)} \cup (IF e.result # "SUCCESS" THEN {"wrong-result"} ELSE {})
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) == IF e.op = "export" THEN [s EXCEPT !.n = @ + Len(e.items)] ELSE s
=============================================================================
