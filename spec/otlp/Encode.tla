------------------------------- MODULE Encode -------------------------------
(* OTLP encoding (E03): the request expected for a batch.  Values are pairs    *)
(* <<type, value>>: s string, b bool, i integer, d double, y bytes, a array,  *)
(* m map, n null, I integer out of range, o anything else.  Integers that may *)
(* be large are strings; attribute lists come sorted by key.                  *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Set(q) == {q[i] : i \in 1..Len(q)}
Map(q, F(_)) == [i \in 1..Len(q) |-> F(q[i])]
(* -- values ---------------------------------------------------------------- *)
RECURSIVE Can(_, _)
Can(v, null) == CASE v[1] = "n" -> null [] v[1] \in {"o", "I"} -> FALSE
                  [] v[1] = "a" -> \A i \in 1..Len(v[2]) : Can(v[2][i], null)
                  [] v[1] = "m" -> \A i \in 1..Len(v[2]) : Can(v[2][i][2], null)
                  [] OTHER -> TRUE
Attrs(as) == SelectSeq(as, LAMBDA p : Can(p[2], FALSE))
(* -- resources and scopes ---------------------------------------------------*)
NoScope == [name |-> "", version |-> "", schema |-> "", attrs |-> <<>>]
Res(r) == [attrs |-> Attrs(r.attrs), schema |-> r.schema]
Scope(s) == [s EXCEPT !.attrs = Attrs(s.attrs)]
(* -- spans ------------------------------------------------------------------*)
Kind == [INTERNAL |-> 1, SERVER |-> 2, CLIENT |-> 3, PRODUCER |-> 4, CONSUMER |-> 5]
Code == [UNSET |-> 0, OK |-> 1, ERROR |-> 2]
RECURSIVE Join(_)
Join(ts) == IF ts = <<>> THEN "" ELSE ts[1][1] \o "=" \o ts[1][2] \o (IF Len(ts) = 1 THEN "" ELSE "," \o Join(Tail(ts)))
Event(e) == [e EXCEPT !.attrs = Attrs(e.attrs)]
Link(l) == [l EXCEPT !.attrs = Attrs(l.attrs), !.ts = Join(l.ts)]
Span(s) == [tid |-> s.tid, sid |-> s.sid, ts |-> Join(s.ts), psid |-> s.parent.sid, name |-> s.name, kind |-> Kind[s.kind], start |-> s.start, end |-> s.end,
            attrs |-> Attrs(s.attrs), events |-> Map(s.events, Event), links |-> Map(s.links, Link), code |-> Code[s.status], desc |-> s.desc,
            da |-> s.da, de |-> s.de, dl |-> s.dl, remote |-> s.parent.remote]
(* -- log records: a body that cannot be encoded may be sent in any form ----- *)
Log(l) == [l EXCEPT !.attrs = Attrs(l.attrs), !.body = IF Can(l.body, TRUE) THEN l.body ELSE <<"?", "">>]
(* -- metrics ----------------------------------------------------------------*)
Exemplar(x) == [x EXCEPT !.attrs = Attrs(x.attrs)]
Buckets(b) == IF b.counts = <<>> THEN [b EXCEPT !.off = 0] ELSE b
Point(type, p) == LET q == [p EXCEPT !.attrs = Attrs(p.attrs), !.ex = Map(p.ex, Exemplar)] IN
                  IF type = "exp" THEN [q EXCEPT !.pos = Buckets(p.pos), !.neg = Buckets(p.neg)] ELSE q
Metric(m) == [m EXCEPT !.points = Map(m.points, LAMBDA p : Point(m.type, p))]
(* -- requests ---------------------------------------------------------------*)
Item(sig, x) == CASE sig = "traces" -> Span(x) [] sig = "logs" -> Log(x) [] OTHER -> Metric(x)
Groups(sig, batch) ==
  {[res |-> Res(r), scopes |-> {[scope |-> Scope(s), items |-> Map(SelectSeq(batch, LAMBDA b : b.res = r /\ b.scope = s), LAMBDA b : Item(sig, b.item))]
                                : s \in {b.scope : b \in {c \in Set(batch) : c.res = r}}}] : r \in {b.res : b \in Set(batch)}}
Fix(sig, out, exp) == IF sig # "logs" THEN out ELSE [out EXCEPT !.body = IF exp = <<"?", "">> THEN exp ELSE @]
(* what is wrong with a group of items against those expected                 *)
ItemsWrong(sig, got, want) ==
  IF Len(got) # Len(want) THEN {"lost-or-invented"}
  ELSE UNION {LET g == Fix(sig, got[i], IF sig = "logs" THEN want[i].body ELSE "") IN {"wrong-" \o f : f \in {f \in DOMAIN want[i] : f \notin DOMAIN g \/ g[f] # want[i][f]}} : i \in 1..Len(want)}
SInit(c) == [n |-> 0]
SFails(s, e) ==
  IF e.raised THEN {"encoding-raised"}
  ELSE LET want == Groups(e.sig, e.batch) IN
       (IF Len(e.out) # Cardinality(want) \/ {g.res : g \in Set(e.out)} # {g.res : g \in want} THEN {"wrong-resources"}
        ELSE UNION {LET g == CHOOSE x \in Set(e.out) : x.res = w.res IN
                    IF Len(g.scopes) # Cardinality(w.scopes) \/ {x.scope : x \in Set(g.scopes)} # {x.scope : x \in w.scopes} THEN {"wrong-scopes"}
                    ELSE UNION {LET h == CHOOSE y \in Set(g.scopes) : y.scope = x.scope IN ItemsWrong(e.sig, h.items, x.items) : x \in w.scopes}
                    : w \in want})
SApply(s, e) == [n |-> s.n + Len(e.batch)]
=============================================================================
