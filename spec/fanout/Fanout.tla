------------------------------- MODULE Fanout -------------------------------
(* A provider's fan-out to its processors (T09).                              *)
(* c.kind: "seq" or "par"; times in microseconds, c.slack: what the clock     *)
(* itself may add.  Events (start, end, emit) are numbered.                   *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Set(q) == {q[i] : i \in 1..Len(q)}
SInit(c) == [c |-> c, reg |-> {}, adding |-> {}, ord |-> {}, ev |-> [x \in {} |-> {}], fl |-> [x \in {} |-> {}], shut |-> {}, down |-> {}]
(* ord: pairs (p, q): p was registered before q *)
GFails(s, e) ==
  IF e.x \notin DOMAIN s.ev \/ ~s.ev[e.x].open THEN {"received-after-the-call-returned"}
  ELSE LET v == s.ev[e.x] IN
     (IF e.p \in Set(v.got) THEN {"received-twice"} ELSE {})
  \cup (IF e.p \notin s.reg \cup s.adding THEN {"received-by-unregistered"} ELSE {})
  \cup (IF e.kind # v.kind THEN {"received-as-something-else"} ELSE {})
  \cup (IF s.c.kind = "seq" /\ \E q \in Set(v.got) : <<e.p, q>> \in s.ord THEN {"order"} ELSE {})
EvRFails(s, e) ==
  LET v == s.ev[e.x] IN (IF ~(v.must \subseteq Set(v.got)) THEN {"not-received"} ELSE {}) \cup (IF e.err # "" THEN {"exception-in-application"} ELSE {})
Rem(f, t) == f.tmo - (t - f.t)
FPFails(s, e) ==
  LET f == s.fl[e.f] IN
     (IF e.p \in DOMAIN f.res THEN {"flushed-twice"} ELSE {})
  \cup (IF s.c.kind = "seq" /\ (e.tmo > Rem(f, e.t) + s.c.slack \/ e.tmo + 1000 + s.c.slack < Rem(f, e.t)) THEN {"timeout-is-not-the-time-remaining"} ELSE {})
  \cup (IF e.tmo > f.tmo THEN {"timeout-too-long"} ELSE {})
  \cup (IF s.c.kind = "seq" /\ Rem(f, e.t) <= 0 THEN {"flushed-although-no-time-is-left"} ELSE {})
  \cup (IF s.c.kind = "seq" /\ \E q \in DOMAIN f.res : <<e.p, q>> \in s.ord THEN {"order"} ELSE {})
Good(f) == {p \in DOMAIN f.res : f.res[p] = "true"}
FRFails(s, e) ==
  LET f == s.fl[e.f] IN
  CASE e.r = "true" ->
          (IF \E p \in DOMAIN f.res : f.res[p] # "true" THEN {"success-reported-although-a-processor-failed"} ELSE {})
     \cup (IF ~(f.must \subseteq Good(f)) THEN {"success-reported-although-a-processor-was-not-flushed"} ELSE {})
    [] e.r = "false" -> IF (\E p \in DOMAIN f.res : f.res[p] = "false") \/ e.t - f.t + 2 >= f.tmo THEN {} ELSE {"failure-reported-without-reason"}
    [] OTHER -> IF \E p \in DOMAIN f.res : f.res[p] = "raise" THEN {} ELSE {"flush-raised"}
FLate(s, e) == IF s.c.kind = "par" /\ e.t - s.fl[e.f].t > s.fl[e.f].tmo + s.c.slack THEN {"flush-exceeds-its-timeout"} ELSE {}
SFails(s, e) ==
  CASE e.op = "got" -> GFails(s, e) [] e.op = "evr" -> EvRFails(s, e)
    [] e.op = "flp" -> FPFails(s, e) [] e.op = "flr" -> FRFails(s, e) \cup FLate(s, e)
    [] e.op = "shp" -> IF e.p \in s.down THEN {"shut-down-twice"} ELSE {}
    [] e.op = "shr" -> IF ~(s.shut \subseteq s.down) THEN {"not-shut-down"} ELSE {}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) ==
  CASE e.op = "addc" -> [s EXCEPT !.adding = @ \cup {e.p}, !.ord = @ \cup {<<q, e.p>> : q \in s.reg}]
    [] e.op = "addr" -> [s EXCEPT !.adding = @ \ {e.p}, !.reg = @ \cup {e.p}]
    [] e.op = "evc" -> [s EXCEPT !.ev = (e.x :> [open |-> TRUE, kind |-> e.kind, must |-> s.reg, got |-> <<>>]) @@ @]
    [] e.op = "got" -> [s EXCEPT !.ev[e.x].got = Append(@, e.p), !.ord = IF s.c.kind = "seq" THEN @ \cup {<<q, e.p>> : q \in Set(s.ev[e.x].got)} ELSE @]
    [] e.op = "evr" -> [s EXCEPT !.ev[e.x].open = FALSE]
    [] e.op = "flc" -> [s EXCEPT !.fl = (e.f :> [t |-> e.t, tmo |-> e.tmo, must |-> s.reg, res |-> [x \in {} |-> ""]]) @@ @]
    [] e.op = "flp" -> [s EXCEPT !.fl[e.f].res = (e.p :> "?") @@ @]
    [] e.op = "flpr" -> [s EXCEPT !.fl[e.f].res[e.p] = e.r]
    [] e.op = "shc" -> [s EXCEPT !.shut = s.reg]
    [] e.op = "shp" -> [s EXCEPT !.down = @ \cup {e.p}]
    [] OTHER -> s
=============================================================================
