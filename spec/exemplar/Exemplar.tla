------------------------------ MODULE Exemplar ------------------------------
(* Exemplars (M09).  One instrument; per reader and attribute set a reservoir *)
(* of size c.size ("simple") or one slot per bucket ("aligned", bounds c.bd). *)
(* Amounts are distinct (powers of two when threads race, so that the sum of  *)
(* a point names the measurements of the interval).                           *)
(* A measurement with r # 0 is an observation made for reader r only.         *)
(* c: kind, filter "on" | "off" | "trace", res, size, bd, all/keys (the       *)
(*    attributes the view keeps), rd (temporality per reader), conc           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SInit(c) == [c |-> c, n |-> 0, meas |-> <<>>, used |-> <<>>, coll |-> <<>>]
Ins(f, k, v) == (k :> v) @@ f
Used(s, k) == IF k \in DOMAIN s.used THEN s.used[k] ELSE {}
Keep(c, p) == c.all \/ \E j \in 1..Len(c.keys) : c.keys[j] = p[1]
Kept(c, at) == SelectSeq(at, LAMBDA p : Keep(c, p))
Dropped(c, at) == SelectSeq(at, LAMBDA p : ~Keep(c, p))
May(s, k) == {m \in DOMAIN s.meas : Kept(s.c, s.meas[m].a) = k[2] /\ s.meas[m].r \in {0, k[1]} /\ (s.c.kind \in {"counter", "hist"} => s.meas[m].v >= 0)}
Admitted(s, m) == s.c.filter = "on" \/ (s.c.filter = "trace" /\ s.meas[m].tid # "" /\ s.meas[m].smp)
(* measurements recorded into point p since the previous collection; for a    *)
(* racing gauge a set that includes them                                      *)
Fresh(s, k, p) ==
  LET new == May(s, k) \ Used(s, k) IN
  IF ~s.c.conc \/ s.c.kind = "gauge" THEN new
  ELSE IF s.c.rd[k[1]] = "D" THEN {m \in new : (p.v \div s.meas[m].v) % 2 = 1}
  ELSE {m \in new : (p.v \div s.meas[m].v) % 2 = 1}
Exact(s) == ~s.c.conc \/ s.c.kind # "gauge"
Slot(c, v) == IF \E j \in 1..Len(c.bd) : v <= c.bd[j] THEN CHOOSE j \in 1..Len(c.bd) : v <= c.bd[j] /\ \A i \in 1..(j - 1) : v > c.bd[i] ELSE Len(c.bd) + 1
Match(s, k, x, m) == /\ s.meas[m].v = x.v /\ Admitted(s, m) /\ s.meas[m].tid = x.tid /\ s.meas[m].sid = x.sid
                     /\ Dropped(s.c, s.meas[m].a) = x.fa /\ x.t >= s.meas[m].t0 /\ (s.meas[m].ret = 0 \/ x.t <= s.meas[m].t1)
PointFails(s, k, p, col) ==
  LET F == Fresh(s, k, p)  A == {m \in F : Admitted(s, m)}
      hit(i) == {m \in A : Match(s, k, p.ex[i], m)}
      got == UNION {hit(i) : i \in 1..Len(p.ex)}
      Limit == IF s.c.res = "aligned" THEN Len(s.c.bd) + 1 ELSE s.c.size
  IN (IF \A i \in 1..Len(p.ex) : hit(i) # {} THEN {}
      ELSE IF \A i \in 1..Len(p.ex) : \E m \in May(s, k) : s.meas[m].v = p.ex[i].v THEN {"exemplar-of-another-interval-or-with-wrong-fields"} ELSE {"invented-exemplar"})
  \cup (IF \A i, j \in 1..Len(p.ex) : i # j => p.ex[i].v # p.ex[j].v THEN {} ELSE {"exemplar-twice"})
  \cup (IF Len(p.ex) <= Limit THEN {} ELSE {"more-than-size"})
  \cup (IF s.c.res = "aligned" /\ ~ \A i, j \in 1..Len(p.ex) : i # j => Slot(s.c, p.ex[i].v) # Slot(s.c, p.ex[j].v) THEN {"two-in-one-bucket"} ELSE {})
  \cup (IF ~Exact(s) THEN {}
        ELSE IF s.c.res = "aligned"
        THEN (IF {Slot(s.c, s.meas[m].v) : m \in A} = {Slot(s.c, p.ex[i].v) : i \in 1..Len(p.ex)} THEN {} ELSE {"bucket-without-exemplar"})
        ELSE (IF Cardinality(A) <= s.c.size THEN (IF got = A THEN {} ELSE {"lost-exemplar"})
              ELSE IF Len(p.ex) = s.c.size THEN {} ELSE {"too-few-exemplars"}))
CollectFails(s, e) ==
  LET r == s.coll[e.cid].r IN
  (IF e.err = "" THEN {} ELSE {"collect-raised"})
  \cup UNION {PointFails(s, <<r, e.pts[j].at>>, e.pts[j], s.coll[e.cid]) : j \in 1..Len(e.pts)}
SFails(s, e) ==
  CASE e.op = "cret" -> CollectFails(s, e)
    [] e.op = "ret"  -> IF e.err = "" THEN {} ELSE {"record-raised"}
    [] e.op = "fail" -> {"fail-" \o e.what}
    [] OTHER -> {}
RECURSIVE Upd(_, _, _, _)
Upd(s, e, r, j) ==
  IF j > Len(e.pts) THEN s.used
  ELSE LET k == <<r, e.pts[j].at>>  p == e.pts[j]
           took == IF s.c.conc /\ s.c.kind = "gauge"
                   THEN {m \in May(s, k) : s.meas[m].ret > 0 /\ s.meas[m].ret < s.coll[e.cid].call}      \* certainly before
                        \cup {m \in May(s, k) : \E i \in 1..Len(p.ex) : p.ex[i].v = s.meas[m].v}
                   ELSE Fresh(s, k, p)
       IN Ins(Upd(s, e, r, j + 1), k, Used(s, k) \cup took)
SApply(s0, e) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  CASE e.op = "call" -> [s EXCEPT !.meas = Ins(@, e.id, [v |-> e.v, a |-> e.a, r |-> e.r, tid |-> e.tid, sid |-> e.sid, smp |-> e.smp, t0 |-> e.t, t1 |-> 0, call |-> s.n, ret |-> 0])]
    [] e.op = "ret"  -> [s EXCEPT !.meas[e.id].ret = s.n, !.meas[e.id].t1 = e.t]
    [] e.op = "ccall" -> [s EXCEPT !.coll = Ins(@, e.cid, [r |-> e.r, call |-> s.n])]
    [] e.op = "cret" -> IF e.err # "" THEN s ELSE [s EXCEPT !.used = Upd(s0, e, s0.coll[e.cid].r, 1)]
    [] OTHER -> s
=============================================================================
