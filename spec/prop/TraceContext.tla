---------------------------- MODULE TraceContext ----------------------------
(* The W3C trace parent (P01).                                                *)
EXTENDS TraceState
Nib(c) == IF c \in Digit THEN c - 48 ELSE c - 87
ParseTP(h) ==   \* the fields, or no if the header has to be ignored
  LET t == Trim(h)  no == [ok |-> FALSE, tid |-> <<>>, sid |-> <<>>, flags |-> 0]
      ver == SubSeq(t, 1, 2)  tid == SubSeq(t, 4, 35)  sid == SubSeq(t, 37, 52)  fl == SubSeq(t, 54, 55)  rest == SubSeq(t, 56, Len(t))
  IN IF Len(t) < 55 \/ (\E i \in 1..Len(t) : t[i] = 10) THEN no
     ELSE IF t[3] # 45 \/ t[36] # 45 \/ t[53] # 45 \/ ~All(ver \o tid \o sid \o fl, HexL) THEN no
     ELSE IF Zero(tid) \/ Zero(sid) \/ ver = <<102, 102>> THEN no
     ELSE IF rest # <<>> /\ (ver = <<48, 48>> \/ rest[1] # 45) THEN no
     ELSE [ok |-> TRUE, tid |-> tid, sid |-> sid, flags |-> 16 * Nib(fl[1]) + Nib(fl[2])]
Expect(e) == IF e.tp = <<>> THEN [ok |-> FALSE] ELSE ParseTP(e.tp[1])
SInit(c) == [valid |-> FALSE, tid |-> <<>>, sid |-> <<>>, flags |-> 0, ts |-> <<>>]
SFails(s, e) ==
  CASE e.op = "inj" ->
        IF e.raised THEN {"inject-raised"}
        ELSE IF ~e.valid THEN (IF e.n # 0 THEN {"wrote-without-a-valid-span"} ELSE {})
        ELSE LET p == ParseTP(e.tp) IN
             (IF ~p.ok \/ Len(e.tp) # 55 THEN {"malformed-trace-parent-written"}
              ELSE IF p.tid # e.tid \/ p.sid # e.sid \/ p.flags # e.flags THEN {"wrong-trace-parent-written"} ELSE {})
             \cup (IF e.tsh # Header(e.ts) \/ e.hasts # (e.ts # <<>>) THEN {"wrong-trace-state-written"} ELSE {})
             \cup (IF e.n # 1 + (IF e.ts = <<>> THEN 0 ELSE 1) THEN {"other-headers-written"} ELSE {})
    [] e.op = "ext" ->
        IF e.raised THEN {"extract-raised"} ELSE
        LET x == Expect(e) IN
        (IF ~e.base THEN {"given-context-changed"} ELSE {})
        \cup (IF ~x.ok THEN (IF e.same THEN {} ELSE {"garbage-accepted"})
              ELSE IF e.same THEN {"valid-headers-ignored"}
              ELSE (IF e.tid # x.tid \/ e.sid # x.sid \/ e.flags # x.flags THEN {"wrong-context-extracted"} ELSE {})
                   \cup (IF e.ts # Parse(e.tsh) THEN {"wrong-trace-state-extracted"} ELSE {})
                   \cup (IF ~e.remote THEN {"not-remote"} ELSE {})
                   \cup (IF ~e.other THEN {"other-values-lost"} ELSE {}))
        \cup (IF e.hop /\ (IF s.valid THEN e.same \/ e.tid # s.tid \/ e.sid # s.sid \/ e.flags # s.flags \/ e.ts # s.ts ELSE ~e.same)
              THEN {"hop-changed-the-span-context"} ELSE {})
    [] e.op = "fail" -> {e.what}
SApply(s, e) == IF e.op # "inj" THEN s ELSE [valid |-> e.valid, tid |-> e.tid, sid |-> e.sid, flags |-> e.flags, ts |-> e.ts]
=============================================================================
