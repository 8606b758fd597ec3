------------------------------- MODULE Simple -------------------------------
(* Simple processors, and the context around any export (T10).                *)
(* c.kind: "span", "log" (simple processors), "metric" (periodic reader asked *)
(* to flush), "bspan", "blog" (batch processors, exporting in their thread).  *)
(* Threads are named; the context of a thread is the sequence of attached     *)
(* contexts, each a number; an export is seen with the suppression mark and   *)
(* with the caller's context below it.                                        *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Set(q) == {q[i] : i \in 1..Len(q)}
Simp(c) == c.kind \in {"span", "log"}
SInit(c) == [c |-> c, ctx |-> [t \in {} |-> <<>>], cur |-> [t \in {} |-> 0], got |-> {}, down |-> FALSE, was |-> {}]
(* cur[t]: the item whose end/emit (or flush) thread t is executing, 0: none  *)
Ctx(s, t) == LET q == Get(s.ctx, t, <<>>) IN IF q = <<>> THEN 0 ELSE q[Len(q)]
XFails(s, e) ==
  (IF ~e.sup THEN {"not-suppressed-while-exporting"} ELSE {}) \cup
  (IF Set(e.ids) \cap s.got # {} \/ Cardinality(Set(e.ids)) # Len(e.ids) THEN {"exported-twice"} ELSE {}) \cup
  (IF ~(Set(e.ids) \subseteq s.was) THEN {"exported-but-not-sampled"} ELSE {}) \cup
  (IF Simp(s.c) /\ (Len(e.ids) # 1 \/ Get(s.cur, e.t, 0) \notin Set(e.ids)) THEN {"not-exported-alone-by-its-own-call"} ELSE {}) \cup
  (IF s.c.kind \in {"span", "log", "metric"} /\ e.ctx # Ctx(s, e.t) THEN {"context-of-the-caller-lost-while-exporting"} ELSE {})
EvFails(s, e) ==
  CASE e.op = "X" -> XFails(s, e)
    [] e.op = "XE" -> IF ~e.sup THEN {"suppression-lost-during-export"} ELSE {}
    [] e.op = "ret" -> (IF e.err \notin {"", "kill"} THEN {"exception-in-application"} ELSE {}) \cup
                       (IF Simp(s.c) /\ e.smp /\ ~s.down /\ e.id \notin s.got THEN {"not-exported-before-return"} ELSE {})
    [] e.op = "ctx" -> (IF e.ctx # Ctx(s, e.t) THEN {"context-not-restored"} ELSE {}) \cup
                       (IF e.sup THEN {"suppression-left-behind"} ELSE {})
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SFails(s, e) == EvFails(s, e)
SApply(s, e) ==
  CASE e.op = "att" -> [s EXCEPT !.ctx = (e.t :> Append(Get(s.ctx, e.t, <<>>), e.v)) @@ @]
    [] e.op = "det" -> [s EXCEPT !.ctx[e.t] = SubSeq(@, 1, Len(@) - 1)]
    [] e.op = "call" -> [s EXCEPT !.cur = (e.t :> e.id) @@ @, !.was = IF e.smp THEN @ \cup {e.id} ELSE @]
    [] e.op = "X" -> [s EXCEPT !.got = @ \cup Set(e.ids)]
    [] e.op = "ret" -> [s EXCEPT !.cur[e.t] = 0]
    [] e.op = "shut" -> [s EXCEPT !.down = TRUE]
    [] OTHER -> s
=============================================================================
