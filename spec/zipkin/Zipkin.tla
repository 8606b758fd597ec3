------------------------------- MODULE Zipkin -------------------------------
(* Zipkin export (E05): the document expected for a batch, in each encoding   *)
(* (v1, v2, proto), and what an export reports.                               *)
(* cfg: enc, max (longest attribute value, 0 for no limit), svc, ep endpoint  *)
(* Values are <<type, text>>, sequences <<"a", <<elements>>>> with elements   *)
(* <<type, text, length in JSON>>.  Times are <<seconds, nanoseconds>>, and   *)
(* <<seconds, microseconds>> in the document.                                 *)
(* Left open: which of two values a tag named twice (span and resource) has,  *)
(* whether tags other than attributes are cut, an empty version's tags.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Set(q) == {q[i] : i \in 1..Len(q)}
SInit(c) == [c |-> c, closed |-> FALSE]
Cut(max, t) == IF max > 0 /\ Len(t) > max THEN SubSeq(t, 1, max) ELSE t
(* -- values as tags: strings <<"s", text>>, sequences <<"a", <<texts>>>> ---- *)
RECURSIVE Fit(_, _, _)
Fit(q, room, first) == IF q = <<>> \/ q[1][3] + (IF first THEN 0 ELSE 1) > room THEN <<>> ELSE <<<<q[1][1], q[1][2]>>>> \o Fit(Tail(q), room - q[1][3] - (IF first THEN 0 ELSE 1), FALSE)
All(q) == [i \in 1..Len(q) |-> <<q[i][1], q[i][2]>>]
Tag(max, v) == IF v[1] = "a" THEN <<"a", IF max = 0 THEN All(v[2]) ELSE Fit(v[2], max - 2, TRUE)>> ELSE <<"s", Cut(max, v[2])>>
Told(max, v) == ~(v[1] = "a" /\ max = 1)
Attrs(max, as) == {<<as[i][1], Tag(max, as[i][2])>> : i \in {j \in 1..Len(as) : Told(max, as[j][2])}}
Plain(k, t) == <<k, <<"s", t>>>>
Extra(x) == (IF x.scope.some THEN {Plain("otel.library.name", x.scope.name), Plain("otel.scope.name", x.scope.name)}
                                  \cup (IF x.scope.version = "" THEN {} ELSE {Plain("otel.library.version", x.scope.version), Plain("otel.scope.version", x.scope.version)}) ELSE {})
       \cup (IF x.status = "UNSET" THEN {} ELSE {Plain("otel.status_code", x.status)}) \cup (IF x.status = "ERROR" THEN {Plain("error", x.desc)} ELSE {})
       \cup (IF x.da = 0 THEN {} ELSE {Plain("otel.dropped_attributes_count", ToString(x.da))}) \cup (IF x.de = 0 THEN {} ELSE {Plain("otel.dropped_events_count", ToString(x.de))})
       \cup (IF x.dl = 0 THEN {} ELSE {Plain("otel.dropped_links_count", ToString(x.dl))})
(* <<key, tag>> pairs permitted; every key has to occur exactly once          *)
Tags(c, x) == Attrs(c.max, x.attrs) \cup Attrs(c.max, x.res) \cup Extra(x) \cup {Plain(t[1], Cut(c.max, t[2][2])) : t \in Extra(x)}
Keys(T) == {t[1] : t \in T}
Maybe(x) == IF x.scope.version = "" THEN {Plain("otel.library.version", ""), Plain("otel.scope.version", "")} ELSE {}
TagFails(c, x, g) == LET T == Tags(c, x)  got == Set(g.tags) \ Maybe(x) IN
     (IF got \subseteq T THEN {} ELSE {"wrong-tag"})
  \cup (IF Keys(T) \subseteq Keys(got) THEN {} ELSE {"missing-tag"})
  \cup (IF Len(g.tags) = Cardinality(Keys(Set(g.tags))) THEN {} ELSE {"tag-twice"})
(* -- times ------------------------------------------------------------------*)
Micro(t) == LET u == (t[2] + 500) \div 1000 IN IF u = 1000000 THEN <<t[1] + 1, 0>> ELSE <<t[1], u>>
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] - b[2] + 1000000000>>
(* -- events -----------------------------------------------------------------*)
EvVal(max, v) == IF v[1] = "s" THEN <<"s", Cut(max, v[2])>> ELSE v
Note(c, e) == [time |-> Micro(e.time), name |-> e.name, attrs |-> {<<e.attrs[i][1], EvVal(c.max, e.attrs[i][2])>> : i \in 1..Len(e.attrs)}]
Got(n) == [n EXCEPT !.attrs = Set(n.attrs)]
Kind(c, x) == IF c.enc = "v1" \/ x.kind = "INTERNAL" THEN "" ELSE x.kind
SpanFails(c, x, g) ==
     TagFails(c, x, g)
  \cup (IF g.tid = x.tid /\ g.sid = x.sid THEN {} ELSE {"wrong-id"})
  \cup (IF g.pid = x.pid THEN {} ELSE {"wrong-parent"})
  \cup (IF g.name = x.name /\ g.kind = Kind(c, x) THEN {} ELSE {"wrong-name-or-kind"})
  \cup (IF g.start = Micro(x.start) THEN {} ELSE {"wrong-start"})
  \cup (IF g.dur = Micro(Minus(x.end, x.start)) THEN {} ELSE {"wrong-duration"})
  \cup (IF Len(g.notes) = Len(x.events) /\ \A i \in 1..Len(g.notes) : Got(g.notes[i]) = Note(c, x.events[i]) THEN {} ELSE {"wrong-annotations"})
  \cup (IF Set(g.eps) \subseteq {[c.ep EXCEPT !.name = c.svc]} THEN {} ELSE {"wrong-endpoint"})
Accepted == {200, 202}
SFails(s, e) ==
  CASE e.op = "export" ->
       IF s.closed THEN (IF e.posts # <<>> THEN {"posted-after-shutdown"} ELSE {}) \cup (IF e.result = "fail" THEN {} ELSE {"not-refused-after-shutdown"})
       ELSE (IF Len(e.posts) # 1 THEN {"not-posted-once"}
             ELSE LET p == e.posts[1] IN
                  (IF p.well THEN {} ELSE {"wrong-request"})
                  \cup (IF Len(p.spans) # Len(e.spans) THEN {"lost-or-invented"} ELSE UNION {SpanFails(s.c, e.spans[i], p.spans[i]) : i \in 1..Len(p.spans)}))
            \cup (IF e.status \in Accepted THEN (IF e.result = "ok" THEN {} ELSE {"success-not-reported"})
                  ELSE IF e.status = 0 THEN (IF e.result = "ok" THEN {"failure-not-reported"} ELSE {})
                  ELSE IF e.result = "fail" THEN {} ELSE {"failure-not-reported"})
    [] e.op = "shutdown" -> IF e.result = "ok" THEN {} ELSE {"shutdown-raised"}
    [] e.op = "flush" -> IF e.result = "ok" THEN {} ELSE {"flush-failed"}
    [] OTHER -> {}
SApply(s, e) == IF e.op = "shutdown" THEN [s EXCEPT !.closed = TRUE] ELSE s
=============================================================================
