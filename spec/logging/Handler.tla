------------------------------- MODULE Handler -------------------------------
(* The handler between the logging module and log records (L02).              *)
(* A message is a sequence of parts "t:text" or "a:argument"; bad says that   *)
(* it cannot be put together (arguments do not fit, or their conversion       *)
(* raises).  msg "o" is an object without arguments, kept as it is.           *)
EXTENDS Attr, TLC
RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN "" ELSE Body(ps[1]) \o Join(Tail(ps))
Named(l) == CASE l < 10 -> 0..4 [] l < 20 -> 5..8 [] l < 30 -> 9..12 [] l < 40 -> 13..16 [] l < 50 -> 17..20 [] OTHER -> 21..24
SInit(c) == [c |-> c, sev |-> {}, set |-> c.provider \in {"given", "global"}]
Enabled(s) == s.set
Passes(s, e) == e.level >= e.loglevel /\ e.level >= s.c.hlevel /\ ~e.filtered
(* extra attributes that are kept, plus code and exception attributes          *)
Extras(e) == PutAll(NewMap, e.extra, -1, -1).o
Exc(e) == CASE e.exc = "none" -> <<>>
            [] e.exc = "args" -> <<<<"s:exception.type", <<"s:Boom">>>>, <<"s:exception.message", <<"s:why">>>>>>
            [] e.exc = "empty" -> <<<<"s:exception.type", <<"s:Boom">>>>, <<"s:exception.message", <<"s:">>>>>>
            [] e.exc = "zero" -> <<<<"s:exception.type", <<"s:Boom">>>>, <<"s:exception.message", <<"s:0">>>>>>
            [] e.exc \in {"noargs", "caught"} -> <<<<"s:exception.type", <<"s:Boom">>>>>>
            [] OTHER -> <<>>
HasTrace(e) == e.exc \in {"args", "caught", "noargs", "empty", "zero"}
Want(e) == LET a == Extras(e) IN [i \in 1..Len(a) |-> a[i]] \o Exc(e)
RecFails(s, e, r) ==
  (IF e.msg = "o" /\ s.c.fmt = "" THEN (IF ~r.isobj THEN {"wrong-body"} ELSE {})
   ELSE IF r.body # (IF s.c.fmt = "" THEN "" ELSE s.c.fmt \o ":") \o (IF e.msg = "o" THEN e.objstr ELSE Join(e.parts)) THEN {"wrong-body"} ELSE {})
  \cup (IF ~r.time THEN {"wrong-timestamp"} ELSE {})
  \cup (IF r.sev \notin Named(e.level) THEN {"severity-outside-of-its-level"} ELSE {})
  \cup (IF \E p \in s.sev : (p[1] < e.level /\ p[2] > r.sev) \/ (p[1] > e.level /\ p[2] < r.sev) \/ (p[1] = e.level /\ p[2] # r.sev) THEN {"severity-not-monotonic"} ELSE {})
  \cup (IF r.text # (IF e.levelname = "WARNING" THEN "WARN" ELSE e.levelname) THEN {"wrong-severity-text"} ELSE {})
  \cup (IF ~SameMap(Want(e), r.attrs) THEN {"wrong-attributes"} ELSE {})
  \cup (IF ~r.code THEN {"wrong-code-attributes"} ELSE {})
  \cup (IF r.stack # HasTrace(e) THEN {"wrong-stacktrace"} ELSE {})
  \cup (IF r.tid # e.tid \/ r.sid # e.sid \/ r.flags # e.flags THEN {"wrong-trace-identity"} ELSE {})
  \cup (IF r.name # e.name THEN {"wrong-scope"} ELSE {})
  \cup (IF ~r.resource THEN {"wrong-resource"} ELSE {})
SFails(s, e) ==
  CASE e.op = "log" ->
        (IF e.raised THEN {"raised-into-the-application"} ELSE {})
        \cup (IF ~Enabled(s) \/ ~Passes(s, e) THEN (IF Len(e.recs) # 0 THEN {"emitted-without-reason"} ELSE {})
              ELSE IF e.bad THEN (IF Len(e.recs) > 1 THEN {"emitted-twice"} ELSE {})
              ELSE IF Len(e.recs) # 1 THEN {"not-exactly-one-record"}
              ELSE RecFails(s, e, e.recs[1]))
    [] e.op = "flush" -> IF e.raised THEN {"raised-into-the-application"} ELSE {}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) ==
  CASE e.op = "log" -> IF Len(e.recs) = 1 THEN [s EXCEPT !.sev = @ \cup {<<e.level, e.recs[1].sev>>}] ELSE s
    [] e.op = "setglobal" -> [s EXCEPT !.set = IF s.c.provider = "proxy" THEN TRUE ELSE @]
    [] OTHER -> s
=============================================================================
