------------------------------ MODULE ExpHist -------------------------------
(* Exponential histograms (M03).  Every measurement carries its sign, the     *)
(* index of its bucket at scale 20 (the finest) and its rank in the order of  *)
(* all amounts; the index at scale s is that index divided by 2^(20-s),       *)
(* rounded down.  In racing executions the amounts are distinct powers of two *)
(* (v), so that a reported sum names the measurements of the point.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Pow2(_), Total(_, _), SumV(_, _)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Total(q, i) == IF i > Len(q) THEN 0 ELSE q[i] + Total(q, i + 1)
SInit(c) == [c |-> c, n |-> 0, meas |-> <<>>, used |-> <<>>, coll |-> <<>>]
SumV(s, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN s.meas[x].v + SumV(s, S \ {x})
Ins(f, k, v) == (k :> v) @@ f
Used(s, k) == IF k \in DOMAIN s.used THEN s.used[k] ELSE {}
May(s, a) == {m \in DOMAIN s.meas : s.meas[m].a = a}
Must(s, a, col) == {m \in May(s, a) : s.meas[m].ret > 0 /\ s.meas[m].ret < col.call}
Rest(s, k, S) == IF s.c.rd[k[1]] = "D" THEN S \ Used(s, k) ELSE S
Taken(s, k, p, col) ==
  LET may == Rest(s, k, May(s, k[2]))  mu == Rest(s, k, Must(s, k[2], col)) IN
  IF may = mu THEN may ELSE {m \in may : (p.v \div s.meas[m].v) % 2 = 1}
At(s, m, sc) == s.meas[m].ix \div Pow2(20 - sc)
SideFails(s, S, p, side, off, bk) ==
  LET T == {m \in S : s.meas[m].sg = side} IN
     (IF \A j \in 1..Len(bk) : bk[j] = Cardinality({m \in T : At(s, m, p.scale) = off + j - 1}) THEN {} ELSE {"bucket-counts"})
  \cup (IF \A m \in T : At(s, m, p.scale) >= off /\ At(s, m, p.scale) < off + Len(bk) THEN {} ELSE {"value-outside-buckets"})
  \cup (IF Len(bk) <= s.c.size THEN {} ELSE {"too-many-buckets"})
PointFails(s, k, p, col) ==
  LET S == Taken(s, k, p, col)  mu == Must(s, k[2], col) IN
     (IF p.tp = s.c.rd[k[1]] THEN {} ELSE {"temporality"})
  \cup (IF Rest(s, k, mu) \subseteq S /\ (s.c.rd[k[1]] = "C" => Used(s, k) \subseteq S) THEN {} ELSE {"lost"})
  \cup (IF S = {} /\ s.c.rd[k[1]] = "D" THEN {"empty-point"} ELSE {})
  \cup (IF p.cnt = Cardinality(S) THEN {} ELSE {"count"})
  \cup (IF p.zero = Cardinality({m \in S : s.meas[m].sg = 0}) THEN {} ELSE {"zero-count"})
  \cup (IF p.cnt = p.zero + Total(p.pos, 1) + Total(p.neg, 1) THEN {} ELSE {"counts-do-not-add-up"})
  \cup (IF p.sumok /\ p.v = SumV(s, S) THEN {} ELSE {"sum"})
  \cup (IF ((\E m \in S : s.meas[m].sg # 0) => p.scale <= s.c.maxscale) /\ p.scale >= -10 THEN {} ELSE {"scale"})
  \cup (IF S # {} => (\E m \in S : p.mn = s.meas[m].rk) /\ (\A m \in S : p.mn <= s.meas[m].rk)
                  /\ (\E m \in S : p.mx = s.meas[m].rk) /\ (\A m \in S : p.mx >= s.meas[m].rk) THEN {} ELSE {"min-max"})
  \cup (IF p.scale <= 20 /\ p.scale >= -10 THEN SideFails(s, S, p, 1, p.po, p.pos) \cup SideFails(s, S, p, -1, p.no, p.neg) ELSE {})
CollectFails(s, e) ==
  LET col == s.coll[e.cid]  as == {s.meas[m].a : m \in DOMAIN s.meas} IN
  IF e.err # "" THEN {"collect-raised"}
  ELSE (IF \A j \in 1..Len(e.pts) : e.pts[j].at \in as THEN {} ELSE {"unexpected-point"})
  \cup (IF \A i, j \in 1..Len(e.pts) : i # j => e.pts[i].at # e.pts[j].at THEN {} ELSE {"duplicate-point"})
  \cup (IF \A a \in as : Rest(s, <<col.r, a>>, Must(s, a, col)) # {} => \E j \in 1..Len(e.pts) : e.pts[j].at = a THEN {} ELSE {"missing-point"})
  \cup UNION {IF e.pts[j].at \in as THEN PointFails(s, <<col.r, e.pts[j].at>>, e.pts[j], col) ELSE {} : j \in 1..Len(e.pts)}
SFails(s, e) ==
  CASE e.op = "cret" -> CollectFails(s, e)
    [] e.op = "ret"  -> IF e.err = "" THEN {} ELSE {"record-raised"}
    [] e.op = "fail" -> {"fail-" \o e.what}
    [] OTHER -> {}
RECURSIVE Upd(_, _, _, _)
Upd(s, e, col, j) == IF j > Len(e.pts) THEN s.used
                     ELSE LET k == <<col.r, e.pts[j].at>> IN Ins(Upd(s, e, col, j + 1), k, Used(s, k) \cup Taken(s, k, e.pts[j], col))
SApply(s0, e) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  CASE e.op = "call" -> [s EXCEPT !.meas = Ins(@, e.id, [sg |-> e.sg, ix |-> e.ix, rk |-> e.rk, v |-> e.v, a |-> e.a, call |-> s.n, ret |-> 0])]
    [] e.op = "ret"  -> [s EXCEPT !.meas[e.id].ret = s.n]
    [] e.op = "ccall" -> [s EXCEPT !.coll = Ins(@, e.cid, [r |-> e.r, call |-> s.n])]
    [] e.op = "cret" -> IF e.err # "" THEN s ELSE [s EXCEPT !.used = Upd(s0, e, s0.coll[e.cid], 1)]
    [] OTHER -> s
=============================================================================
