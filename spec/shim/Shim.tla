-------------------------------- MODULE Shim --------------------------------
(* Tracing through the OpenTracing shim and through the tracer behind it, in  *)
(* several flows of execution (S01).                                          *)
(*   s.sp   spans by number; s.ctx extracted span contexts by number          *)
(*   s.st   per flow, what was made current, the innermost last               *)
(*   s.done the ended spans, in the order they ended                          *)
(* A designation is a pair: <<"span", n>>, <<"ctx", n>> or <<"none", 0>>.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Set(q) == {q[i] : i \in 1..Len(q)}
Nobody == [tid |-> "", sid |-> "", bag |-> {}]
None == <<"none", 0>>
SInit(c) == [sp |-> <<>>, ctx |-> <<>>, st |-> [t \in 1..c.flows |-> <<>>], done |-> <<>>, tids |-> {}, sids |-> {}]
At(s, r) == CASE r[1] = "span" -> [tid |-> s.sp[r[2]].tid, sid |-> s.sp[r[2]].sid, bag |-> s.sp[r[2]].bag]
              [] r[1] = "ctx" -> s.ctx[r[2]]
              [] OTHER -> Nobody
Top(s, t) == s.st[t][Len(s.st[t])]
CurRef(s, t) == IF s.st[t] = <<>> THEN None ELSE Top(s, t).who
Cur(s, t) == At(s, CurRef(s, t))
(* -- starting ---------------------------------------------------------------*)
RECURSIVE Valid(_, _)
Valid(s, q) == IF q = <<>> THEN <<>> ELSE (IF At(s, q[1][2]).sid = "" THEN <<>> ELSE <<q[1]>>) \o Valid(s, Tail(q))
Firsts(q) == {q[1]} \cup (IF \E i \in 1..Len(q) : q[i][1] = "child" THEN {q[CHOOSE i \in 1..Len(q) : q[i][1] = "child" /\ \A j \in 1..i - 1 : q[j][1] # "child"]} ELSE {})
Implicit(s, e) == IF e.ignore THEN Nobody ELSE Cur(s, e.t)
(* the parents a new span may have: a reference that designates nothing is as *)
(* good as none, an invalid one as none or as one to a new trace              *)
Parents(s, e) ==
  IF e.api = "otel" THEN {Cur(s, e.t)}
  ELSE IF e.child[1] # "none" THEN (IF At(s, e.child).sid # "" THEN {At(s, e.child)} ELSE {Nobody, Implicit(s, e)})
  ELSE LET V == Valid(s, e.refs) IN
       IF V # <<>> THEN {At(s, r[2]) : r \in Firsts(V)}
       ELSE IF \E i \in 1..Len(e.refs) : e.refs[i][2][1] = "ctx" THEN {Nobody, Implicit(s, e)}
       ELSE {Implicit(s, e)}
Keys(b) == {p[1] : p \in b}
Given(s, e) == ({e.child} \cup {e.refs[i][2] : i \in 1..Len(e.refs)}) \ {None}
\* what was made current through the other API has no baggage of the shim
Foreign(s, e, p) == s.st[e.t] # <<>> /\ ~Top(s, e.t).shim /\ p.sid = Cur(s, e.t).sid
Baggage(s, e, p) == LET G == Given(s, e)  all == UNION ({p.bag} \cup {At(s, r).bag : r \in G}) IN
  IF e.api = "otel" THEN e.bag = <<>>
  ELSE IF Len(Valid(s, e.refs)) > 1 \/ \E r \in G : At(s, r).sid = "" THEN Set(e.bag) \subseteq all /\ (Foreign(s, e, p) \/ Keys(p.bag) \subseteq Keys(Set(e.bag)))
  ELSE Set(e.bag) = p.bag \/ (e.bag = <<>> /\ G = {} /\ Foreign(s, e, p))
StartFails(s, e) == LET P == {p \in Parents(s, e) : p.sid = e.psid} IN
     (IF e.err # "" THEN {"start-raised"} ELSE IF P = {} THEN {"wrong-parent"}
      ELSE (IF \E p \in P : (IF p.sid = "" THEN e.tid \notin s.tids ELSE e.tid = p.tid) THEN {} ELSE {"wrong-trace"})
           \cup (IF \E p \in P : Baggage(s, e, p) THEN {} ELSE {"wrong-baggage-of-new-span"}))
  \cup (IF e.sid \in s.sids THEN {"span-id-reused"} ELSE {})
  \cup (IF e.api # "otel" /\ e.links # [i \in 1..Len(Valid(s, e.refs)) |-> LET a == At(s, Valid(s, e.refs)[i][2]) IN <<a.tid, a.sid>>] THEN {"wrong-links"} ELSE {})
NewSpan(e) == [tid |-> e.tid, sid |-> e.sid, psid |-> e.psid, bag |-> Set(e.bag), ended |-> FALSE, name |-> e.name, tags |-> [k \in {e.tags[i][1] : i \in 1..Len(e.tags)} |-> (CHOOSE p \in Set(e.tags) : p[1] = k)[2]],
               logs |-> <<>>, error |-> FALSE, st |-> e.st, et |-> <<0, -1>>]
(* -- ending and errors ------------------------------------------------------*)
End(s, n, et) == IF s.sp[n].ended THEN s ELSE [s EXCEPT !.sp[n].ended = TRUE, !.sp[n].et = et, !.done = Append(@, n)]
Log(s, n, l) == IF s.sp[n].ended THEN s ELSE [s EXCEPT !.sp[n].logs = Append(@, l)]
Tag(s, n, k, v) == IF s.sp[n].ended THEN s ELSE [s EXCEPT !.sp[n].tags = (k :> v) @@ @]
AnyTime == <<0, -1>>
Raised(s, n) == IF s.sp[n].ended THEN s ELSE [Log(s, n, [name |-> "exception", attrs |-> {}, time |-> AnyTime]) EXCEPT !.sp[n].error = TRUE]
Leave(s, e) == LET x == Top(s, e.t)  s0 == [s EXCEPT !.st[e.t] = SubSeq(@, 1, Len(@) - 1)] IN
  IF x.who[1] # "span" THEN s0
  ELSE LET s1 == IF e.exc THEN Raised(s0, x.who[2]) ELSE s0 IN IF x.fin THEN End(s1, x.who[2], AnyTime) ELSE s1
(* -- what was exported ------------------------------------------------------*)
Near(a, b) == b = AnyTime \/ (a[1] = b[1] /\ a[2] - b[2] \in -1000..1000) \/ (a[1] = b[1] + 1 /\ a[2] + 1000000000 - b[2] \in -1000..1000) \/ (b[1] = a[1] + 1 /\ a[2] - b[2] - 1000000000 \in -1000..1000)
LogFits(l, m) == l.name = m.name /\ m.attrs \subseteq Set(l.attrs) /\ Near(l.time, m.time) /\ (l.name = "exception" \/ l.name = "error" \/ m.attrs = Set(l.attrs))
ExpFails(x, y) ==
     (IF x.sid = y.sid /\ x.tid = y.tid /\ x.psid = y.psid THEN {} ELSE {"exported-another-span"})
  \cup (IF x.name = y.name THEN {} ELSE {"wrong-name"})
  \cup (IF Set(x.tags) = {<<k, y.tags[k]>> : k \in DOMAIN y.tags} THEN {} ELSE {"wrong-tags"})
  \cup (IF Len(x.logs) = Len(y.logs) /\ \A i \in 1..Len(x.logs) : LogFits(x.logs[i], y.logs[i]) THEN {} ELSE {"wrong-logs"})
  \cup (IF x.error = y.error THEN {} ELSE {"wrong-status"})
  \cup (IF Near(x.st, y.st) /\ Near(x.et, y.et) THEN {} ELSE {"wrong-time"})
(* ---------------------------------------------------------------------------*)
BagFits(s, r, b) == Set(b) = At(s, r).bag
SFails(s, e) ==
  CASE e.op = "start" -> StartFails(s, e)
    [] e.op = "cur" -> (IF e.otel # Cur(s, e.t).sid THEN {"current-span"} ELSE {})
                  \cup (IF e.ot # Cur(s, e.t).sid THEN {"active-span"} ELSE {})
                  \cup (IF CurRef(s, e.t)[1] = "span" /\ Top(s, e.t).shim /\ ~BagFits(s, CurRef(s, e.t), e.bag) THEN {"baggage-of-active-span"} ELSE {})
    [] e.op = "getbag" -> IF e.got = (IF \E p \in s.sp[e.n].bag : p[1] = e.k THEN (CHOOSE p \in s.sp[e.n].bag : p[1] = e.k)[2] ELSE "") THEN {} ELSE {"wrong-baggage"}
    [] e.op = "leave" -> (IF e.prop # e.exc THEN {"exception-lost-or-invented"} ELSE {})
    [] e.op = "inject" -> IF e.binary THEN (IF e.err = "unsupported" THEN {} ELSE {"binary-not-refused"})
                          ELSE (IF e.err # "" THEN {"inject-raised"} ELSE {}) \cup (IF e.tid = At(s, e.who).tid /\ e.sid = At(s, e.who).sid THEN {} ELSE {"wrong-context-injected"})
                               \cup (IF BagFits(s, e.who, e.bag) THEN {} ELSE {"wrong-baggage-injected"})
    [] e.op = "extract" -> IF e.binary THEN (IF e.err = "unsupported" THEN {} ELSE {"binary-not-refused"})
                           ELSE (IF e.err # "" THEN {"extract-raised"} ELSE {}) \cup (IF e.tid = e.sent.tid /\ e.sid = e.sent.sid THEN {} ELSE {"wrong-context-extracted"})
                                \cup (IF e.sid = "" \/ Set(e.bag) = Set(e.sent.bag) THEN {} ELSE {"wrong-baggage-extracted"})
    [] e.op = "exported" -> IF Len(e.spans) # Len(s.done) THEN {"exports-differ"} ELSE UNION {ExpFails(e.spans[i], s.sp[s.done[i]]) : i \in 1..Len(s.done)}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
Push(s, t, who, fin, shim) == [s EXCEPT !.st[t] = Append(@, [who |-> who, fin |-> fin, shim |-> shim])]
SApply(s, e) ==
  CASE e.op = "start" -> LET s1 == [s EXCEPT !.sp = Append(@, NewSpan(e)), !.tids = @ \cup {e.tid}, !.sids = @ \cup {e.sid}] IN
                         IF e.active THEN Push(s1, e.t, <<"span", Len(s1.sp)>>, e.fin, e.api # "otel") ELSE s1
    [] e.op = "enter" -> Push(s, e.t, e.who, e.fin, e.shim)
    [] e.op = "leave" -> Leave(s, e)
    [] e.op = "finish" -> End(s, e.n, e.et)
    [] e.op = "with" -> LET s1 == IF e.exc THEN Tag(Log(s, e.n, [name |-> "error", attrs |-> {<<"event", "s:error">>, <<"message", "s:boom">>}, time |-> AnyTime]), e.n, "error", "b:True") ELSE s IN End(s1, e.n, AnyTime)
    [] e.op = "tag" -> Tag(s, e.n, e.k, e.v)
    [] e.op = "log" -> Log(s, e.n, [name |-> e.name, attrs |-> Set(e.attrs), time |-> e.time])
    [] e.op = "rename" -> IF s.sp[e.n].ended THEN s ELSE [s EXCEPT !.sp[e.n].name = e.name]
    [] e.op = "setbag" -> [s EXCEPT !.sp[e.n].bag = {p \in @ : p[1] # e.k} \cup {<<e.k, e.v>>}]
    [] e.op = "extract" -> IF e.binary THEN s ELSE [s EXCEPT !.ctx = Append(@, [tid |-> e.tid, sid |-> e.sid, bag |-> Set(e.bag)]), !.tids = @ \cup {e.tid}, !.sids = @ \cup {e.sid}]
    [] OTHER -> s
=============================================================================
