-------------------------------- MODULE Jaeger -------------------------------
(* The Jaeger format (P05): trace:span:parent:flags in hexadecimal digits of  *)
(* any length that fits, and one header for every baggage entry.              *)
EXTENDS Baggage
RECURSIVE Strip0(_)
Strip0(t) == IF t = <<>> THEN t ELSE IF t[1] = 48 THEN Strip0(Tail(t)) ELSE t
Pad(t, n) == Ten6(n - Len(t)) \o ToLower(t)
IsId(t, n) == t # <<>> /\ All(t, Hex) /\ Strip0(t) # <<>> /\ Len(Strip0(t)) <= n
JExtract(h) ==
  LET p == Split(h, 58) IN
  IF Len(p) # 4 THEN [ok |-> FALSE]
  ELSE IF ~IsId(p[1], 32) \/ ~IsId(p[2], 16) \/ p[4] = <<>> \/ ~All(p[4], Hex) THEN [ok |-> FALSE]
  ELSE [ok |-> TRUE, tid |-> Pad(Strip0(p[1]), 32), sid |-> Pad(Strip0(p[2]), 16), flags |-> HexVal(p[4][Len(p[4])]) % 2]
(* here '+' is no space *)
RECURSIVE JDec(_, _)
JDec(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF ~Esc(s, i) THEN <<s[i]>> \o JDec(s, i + 1)
  ELSE LET b == Byte(s, i)  t(k) == Byte(s, i + 3 * k) - 128 IN
       IF b < 128 THEN <<b>> \o JDec(s, i + 3)
       ELSE IF ~Conts(s, i, b) THEN <<65533>> \o JDec(s, i + 3)
       ELSE IF b < 224 THEN <<(b - 192) * 64 + t(1)>> \o JDec(s, i + 6)
       ELSE IF b < 240 THEN <<(b - 224) * 4096 + t(1) * 64 + t(2)>> \o JDec(s, i + 9)
       ELSE <<(b - 240) * 262144 + t(1) * 4096 + t(2) * 64 + t(3)>> \o JDec(s, i + 12)
JPairs(hs) == [i \in 1..Len(hs) |-> <<hs[i][1], JDec(Trim(hs[i][2]), 1)>>]
SInit(c) == [valid |-> FALSE, tid |-> <<>>, sid |-> <<>>, sampled |-> FALSE, bag |-> None]
SFails(s, e) ==
  CASE e.op = "inj" ->
        IF e.raised THEN {"inject-raised"}
        ELSE IF ~e.valid THEN (IF e.n # 0 THEN {"wrote-without-a-valid-span"} ELSE {})
        ELSE LET x == JExtract(e.h) IN
             (IF ~x.ok \/ (x.ok /\ (x.tid # e.tid \/ x.sid # e.sid \/ x.flags # (IF e.sampled THEN 1 ELSE 0))) THEN {"wrong-identity-written"} ELSE {})
             \cup (IF ~Is(SetAll(None, e.bag), JPairs(e.bh)) THEN {"wrong-baggage-written"} ELSE {})
             \cup (IF e.n # 1 + Len(e.bag) THEN {"other-headers-written"} ELSE {})
    [] e.op = "ext" ->
        IF e.raised THEN {"extract-raised"} ELSE
        LET x == IF e.h = <<>> THEN [ok |-> FALSE] ELSE JExtract(e.h[1])  b0 == SetAll(None, e.bag0) IN
        (IF ~e.base THEN {"given-context-changed"} ELSE {})
        \cup (IF ~x.ok THEN (IF e.samespan THEN {} ELSE {"garbage-accepted"})
              ELSE IF e.samespan THEN {"valid-headers-ignored"}
              ELSE (IF e.tid # x.tid \/ e.sid # x.sid \/ e.flags # x.flags THEN {"wrong-context-extracted"} ELSE {})
                   \cup (IF ~e.remote THEN {"not-remote"} ELSE {}))
        \cup (IF x.ok /\ ~Is(SetAll(b0, JPairs(e.bh)), e.bag) THEN {"wrong-baggage-extracted"} ELSE {})
        \cup (IF e.h = <<>> /\ ~Is(b0, e.bag) THEN {"baggage-without-identity"} ELSE {})
        \cup (IF ~e.other THEN {"other-values-lost"} ELSE {})
        \cup (IF e.hop THEN IF ~s.valid THEN (IF e.samespan THEN {} ELSE {"hop-invented-a-span"})
                            ELSE (IF e.samespan \/ e.tid # s.tid \/ e.sid # s.sid \/ e.flags # (IF s.sampled THEN 1 ELSE 0) THEN {"hop-changed-the-span-context"} ELSE {})
                                 \cup (IF ~Is([k \in DOMAIN b0 \cup DOMAIN s.bag |-> IF k \in DOMAIN s.bag THEN s.bag[k] ELSE b0[k]], e.bag) THEN {"hop-changed-the-baggage"} ELSE {})
              ELSE {})
    [] e.op = "fail" -> {e.what}
SApply(s, e) == IF e.op # "inj" THEN s ELSE [valid |-> e.valid, tid |-> e.tid, sid |-> e.sid, sampled |-> e.sampled, bag |-> SetAll(None, e.bag)]
=============================================================================
