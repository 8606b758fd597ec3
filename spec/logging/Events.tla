-------------------------------- MODULE Events --------------------------------
(* Events emitted through an event logger become log records (L03).            *)
(* emit: an event (name, attrs, body kind, sev, ts, tid, sid, flags; unset      *)
(* fields are "" or empty) within a current span (span: its tid, sid, flags),   *)
(* through logger k; recs: what reached the processor.                          *)
(* setglobal: the global logger provider becomes the real one.                  *)
EXTENDS Attr, TLC
SInit(c) == [c |-> c, set |-> c.provider \in {"given", "global"}]
Enabled(s) == s.set
Sev(e) == IF e.sev = 0 THEN 9 ELSE e.sev
Or(a, b) == IF a = <<>> THEN b ELSE a
(* the event's own attributes as far as they are valid; its name last of all   *)
Want(e) == PutAll(NewMap, Append(e.attrs, <<"s:event.name", <<"s:" \o e.name>>>>), -1, -1).o
RecFails(s, e, r) ==
  (IF ~SameMap(Want(e), r.attrs) THEN {"wrong-attributes"} ELSE {})
  \cup (IF ~r.body THEN {"wrong-body"} ELSE {})
  \cup (IF r.sev # Sev(e) THEN {"wrong-severity"} ELSE {})
  \cup (IF e.ts = "given" /\ r.time # "given" THEN {"wrong-timestamp"} ELSE {})
  \cup (IF e.ts = "unset" /\ r.time # "now" THEN {"wrong-timestamp"} ELSE {})
  \cup (IF ~r.observed THEN {"wrong-observed-timestamp"} ELSE {})
  \cup (IF r.tid # Or(e.tid, e.ctid) \/ r.sid # Or(e.sid, e.csid) THEN {"wrong-trace-identity"} ELSE {})
  (* flags of the current span where the event names another span: left open   *)
  \cup (IF e.flags >= 0 /\ r.flags # e.flags THEN {"wrong-trace-flags"} ELSE {})
  \cup (IF e.flags < 0 /\ e.tid = <<>> /\ e.sid = <<>> /\ r.flags # e.cflags THEN {"wrong-trace-flags"} ELSE {})
  \cup (IF ~r.scope THEN {"wrong-scope"} ELSE {})
  \cup (IF s.c.provider # "proxy" /\ ~r.resource THEN {"wrong-resource"} ELSE {})
SFails(s, e) ==
  CASE e.op = "emit" ->
         (IF e.raised THEN {"emit-raised"} ELSE {})
         \cup (IF ~e.intact THEN {"event-changed"} ELSE {})
         \cup (IF ~Enabled(s) THEN (IF Len(e.recs) # 0 THEN {"emitted-without-reason"} ELSE {})
               ELSE IF Len(e.recs) # 1 THEN {"not-exactly-one-record"} ELSE RecFails(s, e, e.recs[1]))
    [] e.op = "again" -> IF Enabled(s) /\ ~e.same THEN {"record-changed-later"} ELSE {}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) == IF e.op = "setglobal" /\ s.c.provider = "proxy" THEN [s EXCEPT !.set = TRUE] ELSE s
=============================================================================
