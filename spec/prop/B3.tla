---------------------------------- MODULE B3 ---------------------------------
(* B3 single and multiple header formats (P04).  A header is a sequence of    *)
(* code points, empty if absent.                                              *)
EXTENDS Chars, TLC
IsTid(t) == Len(t) \in {16, 32} /\ All(t, Hex) /\ ~Zero(t)
IsSid(t) == Len(t) = 16 /\ All(t, Hex) /\ ~Zero(t)
Yes == {<<49>>, <<100>>, <<116, 114, 117, 101>>, <<84, 114, 117, 101>>}
Full(t) == ToLower(IF Len(t) = 16 THEN Ten6(16) \o t ELSE t)
Res(t, sp, f) == IF IsTid(t) /\ IsSid(sp) THEN [ok |-> TRUE, tid |-> Full(t), sid |-> ToLower(sp), flags |-> IF f THEN 1 ELSE 0] ELSE [ok |-> FALSE]
Extract(h) ==
  IF h.single # <<>>
  THEN LET p == Split(h.single, 45) IN
       CASE Len(p) = 2 -> Res(p[1], p[2], TRUE)     \* deferred decision: recorded
         [] Len(p) \in {3, 4} -> Res(p[1], p[2], p[3] \in Yes)
         [] OTHER -> [ok |-> FALSE]
  ELSE Res(h.tid, h.sid, h.sampled \in Yes \/ h.flags = <<49>>)
SInit(c) == [valid |-> FALSE, tid |-> <<>>, sid |-> <<>>, sampled |-> FALSE]
Bit(b) == IF b THEN <<49>> ELSE <<48>>
Got(e, x) == (IF e.tid # x.tid \/ e.sid # x.sid \/ e.flags # x.flags THEN {"wrong-context-extracted"} ELSE {})
             \cup (IF ~e.remote THEN {"not-remote"} ELSE {}) \cup (IF ~e.other THEN {"other-values-lost"} ELSE {})
             \cup (IF e.nts # 0 THEN {"trace-state-invented"} ELSE {})
SFails(s, e) ==
  CASE e.op = "inj" ->
        IF e.raised THEN {"inject-raised"}
        ELSE IF ~e.valid THEN (IF e.n # 0 THEN {"wrote-without-a-valid-span"} ELSE {})
        ELSE LET x == Extract(e.h) IN
             (IF ~x.ok \/ (x.ok /\ (x.tid # e.tid \/ x.sid # e.sid \/ x.flags # (IF e.sampled THEN 1 ELSE 0))) THEN {"wrong-headers-written"} ELSE {})
             \cup (IF e.form = "single" /\ (e.n # 1 \/ e.h.single # e.tid \o <<45>> \o e.sid \o <<45>> \o Bit(e.sampled)) THEN {"single-header-format"} ELSE {})
             \cup (IF e.form = "multi" /\ (e.n # 3 \/ e.h.tid # e.tid \/ e.h.sid # e.sid \/ e.h.sampled # Bit(e.sampled)) THEN {"multi-header-format"} ELSE {})
    [] e.op = "ext" ->
        IF e.raised THEN {"extract-raised"} ELSE
        LET x == Extract(e.h) IN
        (IF ~e.base THEN {"given-context-changed"} ELSE {})
        \cup (IF ~x.ok THEN (IF e.same THEN {} ELSE {"garbage-accepted"}) ELSE IF e.same THEN {"valid-headers-ignored"} ELSE Got(e, x))
        \cup (IF e.hop /\ (IF s.valid THEN e.same \/ e.tid # s.tid \/ e.sid # s.sid \/ e.flags # (IF s.sampled THEN 1 ELSE 0) ELSE ~e.same)
              THEN {"hop-changed-the-span-context"} ELSE {})
    [] e.op = "fail" -> {e.what}
SApply(s, e) == IF e.op # "inj" THEN s ELSE [valid |-> e.valid, tid |-> e.tid, sid |-> e.sid, sampled |-> e.sampled]
=============================================================================
