------------------------------- MODULE Entity -------------------------------
(* Identity of meters, loggers, tracers and instruments (M06).                *)
(* Names and units are sequences of code points.                              *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Upper == 65..90
Lowercase == 97..122
Digits == 48..57
Extra == {45, 95, 46, 47}                     \* - _ . /
ValidName(q) == /\ Len(q) \in 1..255
                /\ q[1] \in Upper \cup Lowercase
                /\ \A i \in 1..Len(q) : q[i] \in Upper \cup Lowercase \cup Digits \cup Extra
ValidUnit(q) == Len(q) <= 63 /\ \A i \in 1..Len(q) : q[i] \in 0..127
Low(q) == [i \in 1..Len(q) |-> IF q[i] \in Upper THEN q[i] + 32 ELSE q[i]]
Valid(e) == ValidName(e.nm) /\ ValidUnit(e.un)
IKey(e) == <<e.m, e.k, Low(e.nm), e.un, e.ds>>
SKey(e) == <<e.p, e.nm, e.ver, e.url, e.at>>
(* ids: key -> object number; two keys never share one                        *)
SInit(c) == [c |-> c, inst |-> <<>>, scope |-> <<>>, sum |-> <<>>, seen |-> {}]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Same(f, k, id) == IF k \in DOMAIN f THEN f[k] = id ELSE \A j \in DOMAIN f : f[j] # id
(* a logger with attributes need not be the same object, a tracer never       *)
Identified(e) == e.p = "m" \/ (e.p = "l" /\ e.at = "N")
GmFails(s, e) ==
     (IF e.err # "" THEN {"get-raised"} ELSE {})
  \cup (IF e.err = "" /\ Identified(e) /\ ~Same(s.scope, SKey(e), e.id) THEN {"scope-not-one-entity"} ELSE {})
  \cup (IF e.err = "" /\ e.sc # <<e.nm, e.ver, e.url, e.at>> THEN {"scope-not-as-requested"} ELSE {})
MkFails(s, e) ==
  IF Valid(e) THEN (IF e.err # "" THEN {"valid-instrument-refused"} ELSE {})
              \cup (IF e.err = "" /\ ~Same(s.inst, IKey(e), e.id) THEN {"instrument-not-one-entity"} ELSE {})
              \cup (IF e.err = "" /\ e.pub # <<Low(e.nm), e.un, e.ds, e.k>> THEN {"instrument-not-as-requested"} ELSE {})
  ELSE IF e.err = "" THEN {"invalid-instrument-accepted"} ELSE IF e.err = "Exception" THEN {} ELSE {"refused-with-another-error"}
(* every stream of the final collection is one instrument with its own total  *)
Kind(k) == CASE k \in {"counter", "ocounter"} -> "sum+" [] k \in {"udc", "oudc"} -> "sum" [] k = "hist" -> "hist" [] OTHER -> "gauge"
Async(k) == k \in {"ocounter", "oudc", "ogauge"}
Expected(s) == {k \in DOMAIN s.inst : s.inst[k] \in DOMAIN s.sum}
Row(s, k) == [m |-> k[1], nm |-> k[3], un |-> k[4], ds |-> k[5], t |-> Kind(k[2]), v |-> s.sum[s.inst[k]]]
Count(q, r) == Cardinality({i \in 1..Len(q) : q[i] = r})
DumpFails(s, e) ==
  LET K == Expected(s) IN
     (IF \E k \in K : Count(e.rows, Row(s, k)) = 0 THEN {"stream-missing-or-wrong"} ELSE {})
  \cup (IF \E k \in K : Count(e.rows, Row(s, k)) # Cardinality({j \in K : Row(s, j) = Row(s, k)}) THEN {"stream-duplicated-or-shared"} ELSE {})
  \cup (IF \E i \in 1..Len(e.rows) : \A k \in K : Row(s, k) # e.rows[i] THEN {"stream-of-no-instrument"} ELSE {})
SFails(s, e) ==
  CASE e.op = "gm" -> GmFails(s, e)
    [] e.op = "mk" -> MkFails(s, e)
    [] e.op = "add" -> {}
    [] e.op = "dump" -> DumpFails(s, e)
    [] e.op = "fail" -> {e.what}
SApply(s, e) ==
  CASE e.op = "gm" -> IF Identified(e) THEN [s EXCEPT !.scope = (SKey(e) :> e.id) @@ @] ELSE s
    [] e.op = "mk" -> IF ~Valid(e) THEN s
                      ELSE [s EXCEPT !.inst = (IKey(e) :> e.id) @@ @,
                                     !.sum = IF Async(e.k) THEN (e.id :> e.v) @@ @ ELSE @]
    [] e.op = "add" -> [s EXCEPT !.sum = (e.id :> (IF e.k = "gauge" THEN e.v ELSE Get(@, e.id, 0) + e.v)) @@ @]
    [] OTHER -> s
=============================================================================
