------------------------------- MODULE Export -------------------------------
(* What can be observed of an OTLP exporter over gRPC (E01) or HTTP (E02).    *)
(* Times in milliseconds.                                                     *)
(* c: kind, signal, max (data points per request, 0: no limit), slack,        *)
(*    arg/sig/gen: settings given as argument, for the signal, in general     *)
(*    (endpoint, headers, compression, timeout, insecure; "" or <<>>: unset)  *)
(* E k items: export called       ER k r: returned ok / fail / raised         *)
(* A k items url hdr enc tmo sec: request sent     AR k o d: its outcome      *)
(*    o: ok, retry (d: delay the server asks for, -1 none, -2 nonsense), fatal, conn       *)
(* S f to / SR f err: shutdown    CL: connection closed                       *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Set(q) == {q[i] : i \in 1..Len(q)}
SInit(c) == [c |-> c, x |-> <<>>, sd |-> 0, down |-> FALSE, st |-> <<>>, cl |-> 0, le |-> 0]
Attempts == 6
Wait(n) == 1000 * 2^(n - 1)      \* after the n-th attempt
(* A shutdown is over when no other one is still under way.                   *)
(* -- settings -------------------------------------------------------------- *)
First(a, b, d) == IF a # "" THEN a ELSE IF b # "" THEN b ELSE d
Path(g) == CASE g = "traces" -> "v1/traces" [] g = "metrics" -> "v1/metrics" [] OTHER -> "v1/logs"
Last(u) == SubSeq(u, Len(u), Len(u))
Base(u) == IF Last(u) = "/" THEN u ELSE u \o "/"
Starts(u, p) == Len(u) >= Len(p) /\ SubSeq(u, 1, Len(p)) = p
Cut(u, p) == SubSeq(u, Len(p) + 1, Len(u))
Chosen(c) == First(c.arg.endpoint, c.sig.endpoint, First(c.gen.endpoint, "", "http://localhost:4317"))
Url(c) == IF c.kind = "http"
          THEN First(c.arg.endpoint, c.sig.endpoint, Base(First(c.gen.endpoint, "", "http://localhost:4318/")) \o Path(c.signal))
          ELSE LET u == Chosen(c) IN IF Starts(u, "http://") THEN Cut(u, "http://") ELSE IF Starts(u, "https://") THEN Cut(u, "https://") ELSE u
Secure(c) == IF c.kind = "http" THEN FALSE
             ELSE LET u == Chosen(c)
                      i == First(c.arg.insecure, c.sig.insecure, c.gen.insecure) IN
                  IF Starts(u, "https://") THEN TRUE ELSE IF i # "" THEN i # "true" ELSE ~Starts(u, "http://")
Hdr(c) == IF c.arg.headers # <<>> THEN c.arg.headers ELSE IF c.sig.headers # <<>> THEN c.sig.headers ELSE c.gen.headers
Enc(c) == First(c.arg.compression, c.sig.compression, First(c.gen.compression, "", "none"))
Tmo(c) == First(c.arg.timeout, c.sig.timeout, First(c.gen.timeout, "", "10"))
(* trusted authorities, client certificate and key.  Where gRPC takes the     *)
(* authorities from the signal's setting the client's own pair may come from  *)
(* the signal or, where unset there, from the general setting.                *)
TlsOk(c, t) ==
  IF c.kind = "http"
  THEN LET crt == First(c.arg.crt, c.sig.crt, c.gen.crt)  key == First(c.arg.key, c.sig.key, c.gen.key) IN
       t = <<First(c.arg.ca, c.sig.ca, First(c.gen.ca, "", "default")), crt, IF crt = "" THEN "" ELSE key>>
  ELSE IF ~Secure(c) THEN t = <<"", "", "">>
  ELSE IF c.arg.ca # "" THEN t = <<"given", "", "">>
  ELSE IF c.sig.ca # "" THEN t[1] = c.sig.ca /\ t[2] \in {c.sig.crt, First(c.sig.crt, c.gen.crt, "")} /\ t[3] \in {c.sig.key, First(c.sig.key, c.gen.key, "")}
  ELSE IF c.gen.ca # "" THEN t = <<c.gen.ca, c.gen.crt, c.gen.key>> \/ t = <<c.gen.ca, First(c.sig.crt, c.gen.crt, ""), First(c.sig.key, c.gen.key, "")>>
  ELSE t[1] = "default" /\ t[2] \in {"", c.gen.crt, First(c.sig.crt, c.gen.crt, "")} /\ t[3] \in {"", c.gen.key, First(c.sig.key, c.gen.key, "")}
SettingFails(c, e) ==
     (IF e.url # Url(c) THEN {"wrong-endpoint"} ELSE {})
  \cup (IF e.sec # Secure(c) THEN {"wrong-security"} ELSE {})
  \cup (IF Set(e.hdr) # Set(Hdr(c)) THEN {"wrong-headers"} ELSE {})
  \cup (IF e.enc # Enc(c) THEN {"wrong-compression"} ELSE {})
  \cup (IF e.tmo # Tmo(c) THEN {"wrong-timeout"} ELSE {})
  \cup (IF ~TlsOk(c, e.tls) THEN {"wrong-certificates"} ELSE {})
  \cup (IF ~e.well THEN {"malformed-request"} ELSE {})
(* -- requests -------------------------------------------------------------- *)
RECURSIVE Chunks(_, _)
Chunks(q, n) == IF Len(q) <= n THEN <<q>> ELSE <<SubSeq(q, 1, n)>> \o Chunks(SubSeq(q, n + 1, Len(q)), n)
Parts(c, q) == IF c.max = 0 THEN <<q>> ELSE IF q = <<>> THEN <<>> ELSE Chunks(q, c.max)
New(c, e) == [parts |-> Parts(c, e.items), j |-> 1, n |-> 0, st |-> "new", ready |-> 0, latest |-> 0, bad |-> FALSE, conn |-> FALSE, open |-> TRUE]
Open(s, k) == k \in DOMAIN s.x /\ s.x[k].open
(* a request whose attempts are used up is settled                            *)
Settled(x) == x.st \in {"ok", "bad"} \/ (x.st = "retry" /\ x.n >= Attempts)
At(x) == IF Settled(x) THEN x.j + 1 ELSE x.j
Alone(s, k) == \A h \in DOMAIN s.x : h = k \/ ~s.x[h].open
AFails(s, e) ==
  IF ~Open(s, e.k) THEN {"request-without-export"}
  ELSE LET x == s.x[e.k] IN
       (IF s.down THEN {"request-after-shutdown"} ELSE {})
  \cup (IF x.st = "flying" THEN {"request-while-one-is-under-way"} ELSE {})
  \cup (IF At(x) > Len(x.parts) THEN {"request-after-final-response"}
        ELSE IF e.items # x.parts[At(x)] THEN {IF Settled(x) /\ e.items = x.parts[x.j] THEN "request-after-final-response" ELSE "different-request"} ELSE {})
  \cup (IF x.st = "retry" /\ ~Settled(x) /\ e.t + s.c.slack < x.ready THEN {"retry-too-early"} ELSE {})
  \cup (IF x.st = "retry" /\ ~Settled(x) /\ e.t > (IF s.le > x.latest THEN s.le ELSE x.latest) + s.c.slack /\ Alone(s, e.k) THEN {"retry-too-late"} ELSE {})
  \cup SettingFails(s.c, e)
ERFails(s, e) ==
  LET x == s.x[e.k]
      all == ~x.bad /\ (Len(x.parts) = 0 \/ (x.j = Len(x.parts) /\ x.st = "ok"))
      fin == x.bad /\ Settled(x) IN
  CASE e.r = "ok" -> IF all THEN {} ELSE {"success-without-success"}
    [] e.r = "fail" -> IF all THEN {"failure-despite-success"}
                       ELSE IF ~fin /\ s.sd = 0 /\ ~x.conn THEN {"gave-up-early"} ELSE {}
    [] OTHER -> IF x.conn THEN {} ELSE {"export-raised"}
Busy(s) == \E k \in DOMAIN s.x : s.x[k].open /\ s.x[k].st = "flying"
SRFails(s, e) ==
  LET f == s.st[e.f] IN
     (IF e.err # "" THEN {"shutdown-raised"} ELSE {})
  \cup (IF e.t > f.t + f.to + s.c.slack THEN {"shutdown-late"} ELSE {})
  \cup (IF s.c.kind = "grpc" /\ f.first /\ e.t + s.c.slack < f.t + f.to /\ Busy(s) THEN {"shutdown-does-not-wait"} ELSE {})
SFails(s, e) ==
  CASE e.op = "A" -> AFails(s, e)
    [] e.op = "ER" -> ERFails(s, e)
    [] e.op = "SR" -> SRFails(s, e)
    [] e.op = "CL" -> IF s.sd = 0 THEN {"closed-without-shutdown"} ELSE IF s.cl > 0 THEN {"closed-twice"} ELSE {}
    [] e.op = "end" -> IF s.c.kind = "grpc" /\ s.sd > 0 /\ s.cl = 0 THEN {"never-closed"} ELSE {}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
Resp(x, e) ==
  CASE e.o = "ok" -> [x EXCEPT !.st = "ok"]
    [] e.o = "retry" -> [x EXCEPT !.st = "retry", !.n = @ + 1, !.ready = e.t + (IF e.d = -2 THEN 0 ELSE IF e.d >= 0 THEN e.d ELSE Wait(x.n + 1)),
                               !.latest = e.t + (IF e.d >= 0 THEN e.d ELSE Wait(x.n + 1)), !.bad = @ \/ x.n + 1 >= Attempts]
    [] e.o = "conn" -> [x EXCEPT !.st = "bad", !.conn = TRUE, !.bad = TRUE]
    [] OTHER -> [x EXCEPT !.st = "bad", !.bad = TRUE]
Send(x) == [x EXCEPT !.j = At(x), !.st = "flying", !.n = IF Settled(x) THEN 0 ELSE @]
SApply(s, e) ==
  CASE e.op = "E" -> [s EXCEPT !.x = (e.k :> New(s.c, e)) @@ @]
    [] e.op = "A" -> [s EXCEPT !.x[e.k] = Send(@)]
    [] e.op = "AR" -> [s EXCEPT !.x[e.k] = Resp(@, e)]
    [] e.op = "ER" -> [s EXCEPT !.x[e.k].open = FALSE, !.le = e.t]
    [] e.op = "S" -> [s EXCEPT !.sd = @ + 1, !.st = (e.f :> [t |-> e.t, to |-> e.to, first |-> s.sd = 0, open |-> TRUE]) @@ @]
    [] e.op = "SR" -> [s EXCEPT !.st[e.f].open = FALSE, !.down = @ \/ \A f \in DOMAIN s.st : f = e.f \/ ~s.st[f].open]
    [] e.op = "CL" -> [s EXCEPT !.cl = @ + 1]
    [] OTHER -> s
=============================================================================
