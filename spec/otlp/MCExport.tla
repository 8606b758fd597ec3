------------------------------ MODULE MCExport ------------------------------
(* One exporter, a server answering from a script, shutdown between exports:  *)
(* the exporter's algorithm judged by Export, and the scripts to replay.      *)
EXTENDS Export, GenKit
U == [endpoint |-> "", headers |-> <<>>, compression |-> "", timeout |-> "", insecure |-> "", ca |-> "", crt |-> "", key |-> ""]
MCfgs == {[kind |-> "grpc", signal |-> "metrics", max |-> m, slack |-> 0, arg |-> U, sig |-> U, gen |-> U] : m \in {0, 1}}
MInit(c) == [m |-> SInit(c), bad |-> {}, t |-> 0, k |-> 0, part |-> 0, n |-> 0, fail |-> FALSE, down |-> FALSE]
See(w, e) == [w EXCEPT !.bad = @ \cup SFails(w.m, e), !.m = SApply(w.m, e)]
MOps(w) == {"ok", "retry", "rd", "fatal"} \cup (IF w.part = 0 THEN {"stop"} ELSE {})
Key(n) == IF n = 1 THEN "e1" ELSE IF n = 2 THEN "e2" ELSE "e3"
Items(c, p) == IF c.max = 0 THEN <<1, 2>> ELSE <<p>>
NParts(c) == IF c.max = 0 THEN 1 ELSE 2
Begin(w) == IF w.part > 0 THEN w
            ELSE LET k == w.k + 1 IN [See(w, [op |-> "E", k |-> Key(k), items |-> <<1, 2>>, t |-> w.t]) EXCEPT !.k = k, !.part = 1, !.n = 0, !.fail = FALSE]
Return(w, r) == [See(w, [op |-> "ER", k |-> Key(w.k), r |-> r, t |-> w.t]) EXCEPT !.part = 0]
Settle(w, ok) == LET f == w.fail \/ ~ok IN
                 IF w.part < NParts(w.m.c) THEN [w EXCEPT !.part = @ + 1, !.n = 0, !.fail = f] ELSE Return(w, IF f THEN "fail" ELSE "ok")
Answer(w, o) ==
  LET a == [op |-> "A", k |-> Key(w.k), items |-> Items(w.m.c, w.part), t |-> w.t, url |-> "localhost:4317", sec |-> FALSE, hdr |-> <<>>, enc |-> "none", tmo |-> "10", tls |-> <<"", "", "">>, well |-> TRUE]
      d == IF o = "rd" THEN 3000 ELSE -1
      w1 == See(See(w, a), [op |-> "AR", k |-> Key(w.k), o |-> IF o = "rd" THEN "retry" ELSE o, d |-> d, t |-> w.t]) IN
  CASE o = "ok" -> Settle(w1, TRUE)
    [] o = "fatal" -> Settle(w1, FALSE)
    [] OTHER -> LET w2 == [w1 EXCEPT !.n = @ + 1, !.t = @ + (IF d >= 0 THEN d ELSE Wait(w.n + 1))] IN IF w2.n = Attempts THEN Settle(w2, FALSE) ELSE w2
Stop(w) == LET w1 == See(w, [op |-> "S", f |-> "s", to |-> 1000, t |-> w.t])
               w2 == IF w.down THEN w1 ELSE See(w1, [op |-> "CL", t |-> w.t])
           IN [See(w2, [op |-> "SR", f |-> "s", err |-> "", t |-> w.t]) EXCEPT !.down = TRUE]
MApply(w, op) == IF op = "stop" THEN Stop(w)
                 ELSE IF w.k = 3 /\ w.part = 0 THEN w
                 ELSE IF w.down THEN Return(Begin(w), "fail")
                 ELSE Answer(Begin(w), op)
Inv == ks.bad = {}
=============================================================================
