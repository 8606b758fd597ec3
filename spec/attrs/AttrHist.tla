------------------------------ MODULE AttrHist -------------------------------
(* Histories of one attribute collection (R02): created from a mapping, then  *)
(* set, deleted, popped, updated, cleared, or attempted to be modified where  *)
(* it is immutable.  Every event carries the contents seen after it.          *)
EXTENDS Attr, TLC
SInit(c) == [c |-> c, m |-> NewMap]
Drop(m, k) == [m EXCEPT !.o = Without(@, k)]
Val(m, k) == (CHOOSE i \in 1..Len(m.o) : m.o[i][1] = k) 
After(s, e) ==
  LET put(m, k, v) == Put(m, k, v, s.c.max, s.c.vl) IN
  CASE e.op = "new" -> PutAll(NewMap, e.kv, s.c.max, s.c.vl)
    [] s.c.imm -> s.m
    [] e.op = "set" -> put(s.m, e.k, e.v)
    [] e.op = "update" -> PutAll(s.m, e.kv, s.c.max, s.c.vl)
    [] e.op = "setdefault" -> IF Has(s.m.o, e.k) THEN s.m ELSE put(s.m, e.k, e.v)
    [] e.op \in {"del", "pop"} -> Drop(s.m, e.k)
    [] e.op = "popitem" -> IF s.m.o = <<>> THEN s.m ELSE Drop(s.m, e.got)
    [] e.op = "clear" -> [s.m EXCEPT !.o = <<>>]
    [] OTHER -> s.m
(* what must be refused, by an exception                                      *)
Refused(s, e) ==
  CASE e.op = "new" -> FALSE
    [] e.op \in {"del", "pop"} /\ ~Has(s.m.o, e.k) -> TRUE
    [] e.op = "popitem" /\ s.m.o = <<>> -> TRUE
    [] s.c.imm -> (e.op \in {"set", "del", "pop", "popitem"}) \/ (e.op = "setdefault" /\ ~Has(s.m.o, e.k)) \/ (e.op = "update" /\ e.kv # <<>>) \/ (e.op = "clear" /\ s.m.o # <<>>)
    [] OTHER -> FALSE
SFails(s, e) ==
  IF e.op = "fail" THEN {e.what} ELSE
  (IF e.op \in {"new", "set", "update", "setdefault", "clear", "popitem", "del", "pop"}
   THEN (IF Refused(s, e) /\ ~e.raised THEN {"modification-not-refused"} ELSE {}) \cup (IF ~Refused(s, e) /\ e.raised THEN {"raised"} ELSE {})
        \cup (IF e.op = "popitem" /\ ~e.raised /\ ~Has(s.m.o, e.got) THEN {"popped-something-else"} ELSE {})
   ELSE {})
  \cup (LET m == After(s, e) IN
        (IF ~SameMap(m.o, e.obs) THEN {"wrong-contents"} ELSE {})
        \cup (IF e.dropped # -1 /\ e.dropped # m.d THEN {"wrong-dropped-count"} ELSE {})
        \cup (IF ~e.agree THEN {"views-disagree"} ELSE {}))
SApply(s, e) == IF e.op = "fail" THEN s ELSE [s EXCEPT !.m = After(s, e)]
=============================================================================
