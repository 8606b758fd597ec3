-------------------------------- MODULE Fork --------------------------------
(* Export pipelines in a process and in the processes forked from it (T11).   *)
(* Each event carries the process; items are numbered.                        *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Set(q) == {q[i] : i \in 1..Len(q)}
SInit(c) == [c |-> c, called |-> <<>>, rec |-> <<>>, out |-> <<>>, down |-> {}, inh |-> <<>>, must |-> <<>>]
G(f, p) == IF p \in DOMAIN f THEN f[p] ELSE {}
Add(f, p, S) == (p :> (G(f, p) \cup S)) @@ f
(* what a metric pipeline may report again in the child: measurements made    *)
(* before the fork; spans and log records waiting then are the parent's       *)
MayAlso(s, p) == IF s.c.kind = "metric" THEN G(s.inh, p) ELSE {}
XFails(s, e) ==
     (IF ~(Set(e.ids) \subseteq (G(s.called, e.p) \cup MayAlso(s, e.p))) THEN {"exported-by-the-wrong-process"} ELSE {})
  \cup (IF Set(e.ids) \cap G(s.out, e.p) # {} \/ Cardinality(Set(e.ids)) # Len(e.ids) THEN {"exported-twice"} ELSE {})
  \cup (IF e.p \in s.down THEN {"exported-after-shutdown"} ELSE {})
SFails(s, e) ==
  CASE e.op = "X" -> XFails(s, e)
    [] e.op = "flush" -> (IF ~e.ok THEN {"flush-fails"} ELSE {}) \cup (IF e.ok /\ ~(G(s.must, <<e.p, e.t>>) \subseteq G(s.out, e.p)) THEN {"flush-incomplete"} ELSE {})
    [] e.op = "waited" -> IF ~(G(s.rec, e.p) \subseteq G(s.out, e.p)) THEN {"not-exported-by-itself"} ELSE {}
    [] e.op = "shut" -> IF ~(G(s.rec, e.p) \subseteq G(s.out, e.p)) THEN {"shutdown-incomplete"} ELSE {}
    [] e.op = "err" -> {"application-sees-error"}
    [] e.op = "hang" -> {"process-hangs"}
    [] OTHER -> {}
SApply(s, e) ==
  CASE e.op = "e" -> [s EXCEPT !.called = Add(@, e.p, {e.id})]
    [] e.op = "er" -> [s EXCEPT !.rec = Add(@, e.p, {e.id})]
    [] e.op = "f" -> [s EXCEPT !.must = (<<e.p, e.t>> :> G(s.rec, e.p)) @@ @]
    [] e.op = "X" -> [s EXCEPT !.out = Add(@, e.p, Set(e.ids))]
    [] e.op = "fork" -> [s EXCEPT !.inh = Add(@, e.ch, G(s.called, e.p) \cup G(s.inh, e.p))]
    [] e.op = "shut" -> [s EXCEPT !.down = @ \cup {e.p}]
    [] OTHER -> s
=============================================================================
