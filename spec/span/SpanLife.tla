------------------------------ MODULE SpanLife ------------------------------
(* One recording span as its user and the registered processors see it:       *)
(* properties T04 (lifecycle), T05 (limits), T06 (status and exceptions).     *)
EXTENDS Attr, TLC
None == "n:"
(* cfg: ma, me, ml attribute/event/link counts, mea, mla counts inside an     *)
(* event or link, len / elen value lengths of span / event and link           *)
(* attributes (-1: unlimited), rec / sts: record exception / set status flags *)
SInit(c) == [c |-> c, phase |-> "new", name |-> "", attrs |-> NewMap, events |-> <<>>, ed |-> 0, en |-> 0,
             links |-> <<>>, ld |-> 0, ln |-> 0, st |-> [c |-> "UNSET", d |-> None], end |-> -1, start |-> -1]

Push(seq, x, max) == IF max = -1 \/ Len(seq) < max THEN Append(seq, x)
                     ELSE IF max = 0 THEN <<>> ELSE Append(Tail(seq), x)
Over(seq, max) == IF max # -1 /\ Len(seq) >= max THEN 1 ELSE 0

AddEvent(s, name, ts, kv) ==
  LET m == PutAll(NewMap, kv, s.c.mea, s.c.elen)
  IN [s EXCEPT !.events = Push(@, [name |-> name, ts |-> ts, a |-> m], s.c.me), !.ed = @ + Over(s.events, s.c.me), !.en = @ + 1]
LinkOk(ctx, kv) == Tag(ctx) = "v:" \/ Tag(ctx) = "t:" \/ kv # <<>>
AddLink(s, ctx, kv) ==
  IF ~LinkOk(ctx, kv) THEN s
  ELSE LET m == PutAll(NewMap, kv, s.c.mla, s.c.elen)
       IN [s EXCEPT !.links = Push(@, [ctx |-> ctx, a |-> m], s.c.ml), !.ld = @ + Over(s.links, s.c.ml), !.ln = @ + 1]
RECURSIVE AddLinks(_, _)
AddLinks(s, ls) == IF ls = <<>> THEN s ELSE AddLinks(AddLink(s, ls[1][1], ls[1][2]), Tail(ls))

SetStatus(s, code, desc) ==
  IF s.st.c = "OK" \/ code = "UNSET" THEN s
  ELSE [s EXCEPT !.st = [c |-> code, d |-> IF code = "ERROR" /\ Tag(desc) = "s:" /\ desc # "s:" THEN desc ELSE None]]

End(s, t) == IF s.phase = "ended" THEN s ELSE [s EXCEPT !.phase = "ended", !.end = t]

ExcType(e) == IF e.mod = "builtins" THEN e.qual ELSE e.mod \o "." \o e.qual
ExcKv(e) == <<  <<"s:exception.type", <<"s:" \o ExcType(e)>> >>, <<"s:exception.message", <<"s:" \o e.msg>> >>,
               <<"s:exception.stacktrace", <<"s:<stack>">> >> >>
Raise(s, e, record, setst) ==
  LET s1 == IF record THEN AddEvent(s, "exception", e.ts, ExcKv(e)) ELSE s
  IN IF setst THEN SetStatus(s1, "ERROR", "s:" \o e.name \o ": " \o e.msg) ELSE s1

Open(s) == s.phase = "live"
(* The state after operation e.  e.at is the end time the harness saw for an  *)
(* implicit end (checked against the clock in Fails).                         *)
Eff(s, e) ==
  CASE e.op = "start" -> AddLinks([s EXCEPT !.phase = "live", !.name = e.name, !.start = e.st,
                                   !.attrs = PutAll(NewMap, e.kv, s.c.ma, s.c.len)], e.links)
    [] e.op = "attr"   -> IF Open(s) THEN [s EXCEPT !.attrs = PutAll(@, e.kv, s.c.ma, s.c.len)] ELSE s
    [] e.op = "event"  -> IF Open(s) THEN AddEvent(s, e.name, e.ts, e.kv) ELSE s
    [] e.op = "link"   -> IF Open(s) THEN AddLink(s, e.ctx, e.kv) ELSE s
    [] e.op = "name"   -> IF Open(s) THEN [s EXCEPT !.name = e.name] ELSE s
    [] e.op = "status" -> IF Open(s) THEN SetStatus(s, e.c, e.d) ELSE s
    [] e.op = "recexc" -> IF Open(s) THEN AddEvent(s, "exception", e.ts, ExcKv(e) \o e.kv) ELSE s
    [] e.op = "end"    -> End(s, e.at)
    (* leaving a block of `with span:` *)
    [] e.op = "with"   -> End(IF Open(s) /\ e.kind # "none" THEN Raise(s, e, s.c.rec, s.c.sts) ELSE s, e.at)
    (* leaving a block of use_span(span, end_on_exit, record_exception, set_status_on_exception) *)
    [] e.op = "use"    -> LET s1 == IF Open(s) /\ e.kind \notin {"none", "GeneratorExit", "KeyboardInterrupt"} THEN Raise(s, e, e.rec, e.sts) ELSE s
                          IN IF e.eoe THEN End(s1, e.at) ELSE s1
    [] OTHER -> s
SApply(s, e) == Eff(s, e)

(* Comparison with an observation of the span.                                *)
EvSame(m, o) == /\ Len(m) = Len(o)
                /\ \A i \in 1..Len(m) : m[i].name = o[i].name /\ m[i].ts = o[i].ts /\ SameMap(m[i].a.o, o[i].a) /\ m[i].a.d = o[i].d
LkSame(m, o) == /\ Len(m) = Len(o)
                /\ \A i \in 1..Len(m) : m[i].ctx = o[i].ctx /\ SameMap(m[i].a.o, o[i].a) /\ m[i].a.d = o[i].d
ViewFails(s, o, p) ==
     (IF s.name = o.name THEN {} ELSE {p \o "name"})
  \cup (IF SameMap(s.attrs.o, o.a) THEN {} ELSE {p \o "attributes"})
  \cup (IF s.attrs.d = o.ad THEN {} ELSE {p \o "dropped-attributes"})
  \cup (IF EvSame(s.events, o.ev) THEN {} ELSE {p \o "events"})
  \cup (IF s.ed = o.ed THEN {} ELSE {p \o "dropped-events"})
  \cup (IF LkSame(s.links, o.lk) THEN {} ELSE {p \o "links"})
  \cup (IF s.ld = o.ld THEN {} ELSE {p \o "dropped-links"})
  \cup (IF s.st.c = o.sc /\ s.st.d = o.sd THEN {} ELSE {p \o "status"})
  \cup (IF s.start = o.st THEN {} ELSE {p \o "start-time"})
  \cup (IF s.end = o.en THEN {} ELSE {p \o "end-time"})
  \cup (IF (s.phase = "live") = o.rec THEN {} ELSE {p \o "is-recording"})

SFails(s, e) ==
  LET n == Eff(s, e) IN
       ViewFails(n, e.o, "")
  \cup (IF e.raised = "" THEN {} ELSE {"operation-raised"})
  \cup (IF e.op \in {"with", "use"} /\ e.prop # (IF e.kind = "none" THEN "none" ELSE "same") THEN {"exception-propagation"} ELSE {})
  \cup (IF n.end # s.end /\ ~e.expl /\ ~(e.lo <= n.end /\ n.end <= e.hi) THEN {"end-time-not-now"} ELSE {})
  \* every processor is told of the start once, before the caller has the span, and of the end once
  \cup (IF \A i \in 1..Len(e.starts) : e.starts[i] = 1 THEN {} ELSE {"start-reported-once"})
  \cup (IF \A i \in 1..Len(e.ends) : e.ends[i] = (IF n.phase = "ended" THEN 1 ELSE 0) THEN {} ELSE {"end-reported-once"})
  \* what the processors received at the end, re-read after this operation
  \cup UNION {ViewFails(n, e.x[i], "exported-") : i \in 1..Len(e.x)}

-----------------------------------------------------------------------------
(* Invariants for the model-checking run.                                     *)
Bounded(s) == /\ MapOk(s.attrs, s.c.ma) /\ LenOk(s.attrs, s.c.len)
              /\ s.c.me # -1 => Len(s.events) <= s.c.me
              /\ s.c.ml # -1 => Len(s.links) <= s.c.ml
              /\ Len(s.events) + s.ed = s.en /\ Len(s.links) + s.ld = s.ln
              /\ \A i \in 1..Len(s.events) : MapOk(s.events[i].a, s.c.mea) /\ LenOk(s.events[i].a, s.c.elen)
              /\ \A i \in 1..Len(s.links) : MapOk(s.links[i].a, s.c.mla) /\ LenOk(s.links[i].a, s.c.elen)
StatusOk(s) == s.st.d # None => s.st.c = "ERROR"
Frozen(s, n) == s.phase = "ended" => n = s
OkSticks(s, n) == s.st.c = "OK" => n.st = s.st
=============================================================================
