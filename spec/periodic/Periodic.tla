------------------------------ MODULE Periodic ------------------------------
(* What can be observed of a periodic metric reader (M08).  Times in          *)
(* microseconds; c.iv = 0: no periodic collection.  by = "ticker": the        *)
(* reader's own thread.  Measurements are numbered, delta sums tell which     *)
(* ones an export contains.                                                   *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Set(q) == {q[i] : i \in 1..Len(q)}
SInit(c) == [c |-> c, called |-> {}, rec |-> {}, begun |-> {}, done |-> {}, inx |-> <<>>, xs |-> "no", fl |-> <<>>,
             sd |-> 0, sopen |-> 0, st |-> 0, sto |-> 0, smust |-> {}, lo |-> 0, hi |-> 0, made |-> FALSE, busy |-> FALSE, open |-> FALSE, t0 |-> 0, idle |-> 0, gaveup |-> FALSE]
Outstanding(s) == {f \in DOMAIN s.fl : s.fl[f].open}
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
(* The reader's last collection exceeded its timeout, as far as can be seen:  *)
(* where threads may be delayed at will (a large slack) any time may count.   *)
Cut(s, t) == (IF s.c.slack < 10000000 THEN s.hi ELSE t) - s.t0 >= s.c.to - Min(s.c.slack, s.c.to \div 10)
Late(s, e) == /\ s.c.iv > 0 /\ s.made /\ s.sd = 0 /\ ~s.busy /\ Outstanding(s) = {}
              /\ e.t > Max(s.hi + s.c.iv, s.idle) + s.c.slack
InTime(s, t) == t - s.st < s.sto - s.c.slack \div 10
XFails(s, e) ==
     (IF s.inx # <<>> THEN {"exports-overlap"} ELSE {})
  \cup (IF s.xs # "no" THEN {"export-after-exporter-shutdown"} ELSE {})
  \cup (IF Set(e.ids) \cap s.begun # {} THEN {"measurement-exported-twice"} ELSE {})
  \cup (IF ~(Set(e.ids) \subseteq s.called) THEN {"export-of-nothing-recorded"} ELSE {})
  \cup (IF e.by = "ticker" /\ ~s.open THEN {"export-without-collection"} ELSE {})
TFails(s, e) ==
  IF e.by # "ticker" THEN {}
  ELSE (IF s.c.iv = 0 THEN {"collects-without-interval"} ELSE {})
  \cup (IF s.c.iv > 0 /\ s.sd = 0 /\ e.t + s.c.slack < s.lo + s.c.iv THEN {"collects-too-early"} ELSE {})
  \cup (IF s.open /\ ~Cut(s, e.t) /\ s.xs = "no" /\ (s.sd = 0 \/ InTime(s, e.t)) THEN {"collection-not-exported"} ELSE {})
XSFails(s, e) ==
     (IF s.xs # "no" THEN {"exporter-shut-down-twice"} ELSE {})
  \cup (IF s.sd = 0 THEN {"exporter-shut-down-unasked"} ELSE {})
  \cup (IF s.c.iv > 0 /\ s.c.slack < 10000000 /\ s.t0 < s.st /\ ~s.busy /\ Outstanding(s) = {} /\ e.t > Max(Max(s.hi, s.idle), s.st) + s.c.slack
         THEN {"final-collection-missing"} ELSE {})
  \cup (IF s.inx # <<>> /\ InTime(s, e.t) THEN {"exporter-shut-down-during-export"} ELSE {})
  \cup (IF s.c.iv > 0 /\ InTime(s, e.t) /\ ~Cut(s, e.t) /\ ~(s.smust \subseteq s.done) THEN {"final-export-incomplete"} ELSE {})
  \cup (IF s.c.iv > 0 /\ InTime(s, e.t) /\ s.open /\ ~Cut(s, e.t) THEN {"collection-not-exported"} ELSE {})
FRFails(s, e) ==
  LET f == s.fl[e.f] IN
  CASE e.err = "collect" -> {}
    [] e.err = "" -> IF s.sd = 0 /\ ~(f.must \subseteq s.done) THEN {"flush-incomplete"} ELSE {}
    [] OTHER -> IF e.t - f.t + s.c.slack < f.to THEN {"flush-fails-early"} ELSE {}
SRFails(s, e) ==
     (IF e.err # "" /\ InTime(s, e.t) THEN {"shutdown-raised"} ELSE {})
  \cup (IF e.err = "" /\ s.xs # "done" /\ s.sopen = 1 /\ ~s.gaveup THEN {"shutdown-returns-before-exporter-shutdown"} ELSE {})
EvFails(s, e) ==
  CASE e.op = "X" -> XFails(s, e) [] e.op = "T" -> TFails(s, e) [] e.op = "XS" -> XSFails(s, e)
    [] e.op = "FR" -> FRFails(s, e) [] e.op = "SR" -> SRFails(s, e)
    [] e.op = "end" -> IF s.sd > 0 /\ s.xs # "done" /\ ~s.gaveup THEN {"exporter-never-shut-down"} ELSE {}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SFails(s, e) == EvFails(s, e) \cup (IF e.op # "fail" /\ Late(s, e) THEN {"collection-overdue"} ELSE {})
Tick(s, e, b) == IF e.by = "ticker" THEN [s EXCEPT !.lo = e.t, !.hi = e.t, !.busy = b] ELSE s
SApply(s, e) ==
  CASE e.op = "start" -> [s EXCEPT !.lo = e.t]
    [] e.op = "made" -> IF s.hi = 0 THEN [s EXCEPT !.hi = e.t, !.made = TRUE] ELSE [s EXCEPT !.made = TRUE]
    [] e.op = "R" -> [s EXCEPT !.called = @ \cup {e.id}]
    [] e.op = "RR" -> [s EXCEPT !.rec = @ \cup {e.id}]
    [] e.op = "T" -> LET s1 == Tick(s, e, FALSE) IN IF e.by = "ticker" THEN [s1 EXCEPT !.open = TRUE, !.t0 = IF s.c.slack < 10000000 THEN e.t ELSE s.lo] ELSE s1
    [] e.op = "CB" -> Tick(s, e, TRUE)
    [] e.op = "CBR" -> Tick(s, e, FALSE)
    [] e.op = "X" -> LET s1 == Tick(s, e, TRUE) IN [s1 EXCEPT !.inx = <<e.x>>, !.begun = @ \cup Set(e.ids), !.open = IF e.by = "ticker" THEN FALSE ELSE @]
    [] e.op = "XR" -> LET s1 == Tick(s, e, FALSE) IN [s1 EXCEPT !.inx = <<>>, !.done = s.begun]
    [] e.op = "XS" -> [s EXCEPT !.xs = "begun"]
    [] e.op = "XSR" -> [s EXCEPT !.xs = "done"]
    [] e.op = "F" -> [s EXCEPT !.fl = (e.f :> [open |-> TRUE, must |-> s.rec, t |-> e.t, to |-> e.to]) @@ @]
    [] e.op = "FR" -> [s EXCEPT !.fl[e.f].open = FALSE, !.idle = e.t]
    [] e.op = "S" -> LET s1 == [s EXCEPT !.sd = @ + 1, !.sopen = @ + 1] IN IF s.sd = 0 THEN [s1 EXCEPT !.st = e.t, !.sto = e.to, !.smust = s.rec] ELSE [s1 EXCEPT !.sto = Min(@, e.to + e.t - s.st)]
    [] e.op = "SR" -> [s EXCEPT !.sopen = @ - 1, !.gaveup = @ \/ e.err # ""]
    [] OTHER -> s
=============================================================================
