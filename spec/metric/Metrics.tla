------------------------------ MODULE Metrics ------------------------------
(* The metric pipeline: views select streams, measurements are aggregated per *)
(* reader, stream and attribute set, collections report and (delta) consume   *)
(* them.  Covers M01, M02, M04, M05, M07.                                     *)
(* cfg: inst  sequence of [k kind, nm name, un unit, ds description, sc scope,*)
(*            ad advised bounds or <<"default">>-like flag, ncb callbacks]    *)
(*      rd    sequence of [tp: kind -> "D"/"C", ag: kind -> aggregation]      *)
(*      views sequence of view records, sc sequence of scopes [nm, ver, url]  *)
(*      defb  default bounds                                                  *)
(* Amounts are integers (in a fixed unit).  In executions where measurements  *)
(* race with collections the amounts are distinct powers of two, so that a    *)
(* reported sum names the measurements it contains.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Async(k) == k \in {"ocounter", "oudc", "ogauge"}
Mono(k) == k \in {"counter", "ocounter"}
RECURSIVE Glob(_, _)
Glob(p, n) == IF p = "" THEN n = ""
              ELSE LET h == SubSeq(p, 1, 1)  t == SubSeq(p, 2, Len(p)) IN
                   IF h = "*" THEN Glob(t, n) \/ (n # "" /\ Glob(p, SubSeq(n, 2, Len(n))))
                   ELSE n # "" /\ (h = "?" \/ h = SubSeq(n, 1, 1)) /\ Glob(t, SubSeq(n, 2, Len(n)))
(* --- views --------------------------------------------------------------- *)
DefAgg(k) == CASE k \in {"counter", "udc", "ocounter", "oudc"} -> "sum" [] k = "hist" -> "hist" [] OTHER -> "last"
Match(c, w, n) ==
  LET sc == c.sc[n.sc] IN
  /\ w.type = "" \/ w.type = n.k
  /\ w.name = "" \/ Glob(w.name, n.nm)
  /\ w.unit = "" \/ Glob(w.unit, n.un)
  /\ w.mname = "" \/ w.mname = sc.nm
  /\ w.mver = "" \/ w.mver = sc.ver
  /\ w.murl = "" \/ w.murl = sc.url
Compat(w, n) == ~(Async(n.k) /\ w.agg = "hist")
Bounds(c, own, n) == IF own # <<>> THEN own ELSE IF n.ad # <<>> THEN n.ad ELSE c.defb
(* agg: [a |-> aggregation name, bd |-> own bounds, mm |-> min/max recorded]  *)
Stream(c, w, n, r) ==
  LET ra == c.rd[r].ag[n.k]
      pick == IF w.agg # "" THEN [a |-> w.agg, bd |-> w.bd, mm |-> w.mm]
              ELSE IF ra.a # "" THEN ra ELSE [a |-> DefAgg(n.k), bd |-> <<>>, mm |-> TRUE]
  IN [nm |-> IF w.vname # "" THEN w.vname ELSE n.nm, ds |-> IF w.vdesc # "" THEN w.vdesc ELSE n.ds,
      a |-> pick.a, bd |-> IF pick.a = "hist" THEN Bounds(c, pick.bd, n) ELSE <<>>, mm |-> pick.mm, all |-> w.all, keys |-> w.keys]
DefView == [vname |-> "", vdesc |-> "", agg |-> "", bd |-> <<>>, mm |-> TRUE, all |-> TRUE, keys |-> <<>>]
Streams(c, i, r) ==
  LET n == c.inst[i]
      ws == SelectSeq(c.views, LAMBDA w : Match(c, w, n) /\ Compat(w, n))
      sel == IF ws = <<>> THEN <<DefView>> ELSE ws
  IN [x \in 1..Len(sel) |-> Stream(c, sel[x], n, r)]
Reports(st, k) == st.a \in {"sum", "last"} \/ (st.a \in {"hist", "exp"} /\ ~Async(k))
Proj(at, st) == IF st.all THEN at ELSE SelectSeq(at, LAMBDA p : \E j \in 1..Len(st.keys) : st.keys[j] = p[1])
(* --- state --------------------------------------------------------------- *)
SInit(c) == [c |-> c, n |-> 0, meas |-> <<>>, made |-> <<>>, cells |-> <<>>, coll |-> <<>>,
             st |-> [i \in 1..Len(c.inst) |-> [r \in 1..Len(c.rd) |-> Streams(c, i, r)]],
             lastRet |-> [r \in 1..Len(c.rd) |-> 0], last |-> [r \in 1..Len(c.rd) |-> <<-1, -1>>]]
Ins(f, k, v) == (k :> v) @@ f
Cell(s, k) == IF k \in DOMAIN s.cells THEN s.cells[k] ELSE [used |-> {}, end |-> -1, st |-> -1, prev |-> 0]
Effective(s, m) == ~(s.c.inst[m.i].k \in {"counter", "hist"} /\ m.v < 0)
RECURSIVE SumV(_, _)
SumV(s, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN s.meas[x].v + SumV(s, S \ {x})
SMin(s, S) == CHOOSE v \in {s.meas[x].v : x \in S} : \A x \in S : v <= s.meas[x].v
SMax(s, S) == CHOOSE v \in {s.meas[x].v : x \in S} : \A x \in S : v >= s.meas[x].v
InBucket(bd, j, v) == (j = 1 \/ v > bd[j - 1]) /\ (j = Len(bd) + 1 \/ v <= bd[j])
(* measurements of a cell <<r, i, x, at>>                                     *)
May(s, k) == {m \in DOMAIN s.meas : s.meas[m].i = k[2] /\ Effective(s, s.meas[m]) /\ Proj(s.meas[m].a, s.st[k[2]][k[1]][k[3]]) = k[4]}
Must(s, k, col) == {m \in May(s, k) : s.meas[m].ret > 0 /\ s.meas[m].ret < col.call}
RECURSIVE Uniq(_, _)
Decode(s, may, must, v) == IF may = must THEN may ELSE {m \in may : (v \div s.meas[m].v) % 2 = 1}
Uniq(q, i) == IF i > Len(q) THEN TRUE ELSE (\A j \in 1..(i - 1) : q[j] # q[i]) /\ Uniq(q, i + 1)
Distinct(q) == Uniq(q, 1)
Temp(s, k) == s.c.rd[k[1]].tp[s.c.inst[k[2]].k]
(* observations of a collection that fall into an asynchronous cell           *)
ObsOf(s, col, k) == SelectSeq(col.obs, LAMBDA o : o[1] = k[2] /\ Proj(o[2], s.st[k[2]][k[1]][k[3]]) = k[4])
RECURSIVE SumObs(_)
SumObs(q) == IF q = <<>> THEN 0 ELSE q[1][3] + SumObs(Tail(q))
(* --- which cells have, or must have, a point ------------------------------ *)
SyncCells(s, r) == UNION {{<<r, s.meas[m].i, x, Proj(s.meas[m].a, s.st[s.meas[m].i][r][x])>> :
                            x \in {y \in 1..Len(s.st[s.meas[m].i][r]) : Reports(s.st[s.meas[m].i][r][y], s.c.inst[s.meas[m].i].k)}}
                          : m \in {y \in DOMAIN s.meas : Effective(s, s.meas[y])}}
AsyncCells(s, r, col) == UNION {{<<r, col.obs[j][1], x, Proj(col.obs[j][2], s.st[col.obs[j][1]][r][x])>> :
                            x \in {y \in 1..Len(s.st[col.obs[j][1]][r]) : Reports(s.st[col.obs[j][1]][r][y], s.c.inst[col.obs[j][1]].k)}}
                          : j \in 1..Len(col.obs)}
StreamOf(s, k) == s.st[k[2]][k[1]][k[3]]
KindOf(s, k) == LET a == StreamOf(s, k).a IN IF a = "last" THEN "gauge" ELSE a
Needed(s, k, col) ==
  LET u == Cell(s, k).used  mu == Must(s, k, col) IN
  IF Async(s.c.inst[k[2]].k) THEN TRUE
  ELSE IF StreamOf(s, k).a = "last" THEN \E m \in mu : m \notin u /\ s.meas[m].call > s.lastRet[k[1]]
  ELSE IF Temp(s, k) = "D" THEN mu \ u # {}
  ELSE mu # {} \/ (u # {} /\ col.call > s.lastRet[k[1]])       \* (a collection that overlapped may have been first)
(* does point p belong to cell k?                                             *)
Belongs(s, p, k) ==
  LET n == s.c.inst[k[2]]  st == StreamOf(s, k) IN
  p.sc = n.sc /\ p.nm = st.nm /\ p.ds = st.ds /\ p.un = n.un /\ p.kd = KindOf(s, k) /\ p.at = k[4]
(* --- one point ------------------------------------------------------------ *)
Taken(s, k, p, col) ==
  IF Async(s.c.inst[k[2]].k) THEN {}
  ELSE LET u == Cell(s, k).used  may == May(s, k)  mu == Must(s, k, col) IN
    IF StreamOf(s, k).a = "last"
    THEN LET hit == {m \in may : s.meas[m].v = p.v /\ \A o \in mu : ~(s.meas[m].ret > 0 /\ s.meas[o].call > s.meas[m].ret)} IN
         IF hit = {} THEN {} ELSE hit \cup {m \in may : \E h \in hit : s.meas[m].ret > 0 /\ s.meas[m].ret < s.meas[h].call}
    ELSE IF Temp(s, k) = "D" THEN Decode(s, may \ u, mu \ u, p.v)
    ELSE Decode(s, may, mu \cup u, p.v)
HistOk(s, st, S, p) ==
     (IF p.bd = st.bd THEN {} ELSE {"bounds"})
  \cup (IF Len(p.bk) = Len(p.bd) + 1 THEN {} ELSE {"bucket-number"})
  \cup (IF p.bd = st.bd /\ Len(p.bk) = Len(st.bd) + 1
           /\ ~ \A j \in 1..Len(p.bk) : p.bk[j] = Cardinality({m \in S : InBucket(st.bd, j, s.meas[m].v)}) THEN {"bucket-counts"} ELSE {})
  \cup (IF p.cnt = Cardinality(S) THEN {} ELSE {"count"})
  \cup (IF p.hm = (st.mm /\ S # {}) THEN {} ELSE {"min-max-presence"})
  \cup (IF p.hm /\ S # {} /\ ~(p.mn = SMin(s, S) /\ p.mx = SMax(s, S)) THEN {"min-max"} ELSE {})
(* exponential histograms: what their buckets say is M03                      *)
ExpOk(s, S, p) ==
     (IF p.cnt = Cardinality(S) THEN {} ELSE {"count"})
  \cup (IF p.hm = (S # {}) THEN {} ELSE {"min-max-presence"})
  \cup (IF p.hm /\ S # {} /\ ~(p.mn = SMin(s, S) /\ p.mx = SMax(s, S)) THEN {"min-max"} ELSE {})
ValueFails(s, k, p, col) ==
  LET n == s.c.inst[k[2]]  st == StreamOf(s, k)  cell == Cell(s, k)  d == Temp(s, k) = "D" IN
  IF Async(n.k)
  THEN LET q == ObsOf(s, col, k)  tot == SumObs(q) IN
       IF st.a = "last" THEN (IF p.v = q[Len(q)][3] THEN {} ELSE {"gauge-value"})
       ELSE IF p.v = tot - (IF d THEN cell.prev ELSE 0) THEN {} ELSE {"async-value"}
  ELSE LET S == Taken(s, k, p, col)  may == May(s, k)  mu == Must(s, k, col)  u == cell.used IN
       IF st.a = "last" THEN (IF S = {} THEN {"gauge-value"} ELSE {})
       ELSE (IF S = {} /\ d THEN {"empty-point"} ELSE {})
            \cup (IF SumV(s, S) = p.v THEN {} ELSE {"sum"})
            \cup (IF (mu \ (IF d THEN u ELSE {})) \subseteq S /\ (d \/ u \subseteq S) THEN {} ELSE {"lost"})
            \cup (IF st.a = "hist" THEN HistOk(s, st, S, p) ELSE IF st.a = "exp" THEN ExpOk(s, S, p) ELSE {})
MetaFails(s, k, p) ==
  LET n == s.c.inst[k[2]]  st == StreamOf(s, k) IN
     (IF st.a = "last" \/ p.tp = Temp(s, k) THEN {} ELSE {"temporality"})
  \cup (IF st.a = "sum" /\ p.mo # Mono(n.k) THEN {"monotonic"} ELSE {})
Overlapped(s, cid) == \E x \in DOMAIN s.coll : x # cid /\ s.coll[x].r = s.coll[cid].r /\ ~s.coll[x].done
TimeFails(s, k, p, col, e) ==
  LET cell == Cell(s, k)  st == StreamOf(s, k)  d == Temp(s, k) = "D"  a == Async(s.c.inst[k[2]].k) IN
     (IF p.et >= col.t /\ p.et <= e.t THEN {} ELSE {"end-time"})
  \cup (IF st.a = "last" THEN (IF p.st <= p.et THEN {} ELSE {"ends-before-start"})
        ELSE (IF p.st >= 0 /\ p.st <= p.et THEN {} ELSE {"ends-before-start"})
             \cup (IF cell.end < 0 \/ ~d \/ (IF a THEN p.st = cell.end ELSE p.st >= s.last[k[1]][1] /\ (p.st <= s.last[k[1]][2] \/ Overlapped(s, e.cid))) THEN {} ELSE {"delta-start"})
             \cup (IF cell.st < 0 \/ d \/ p.st = cell.st THEN {} ELSE {"cumulative-start"}))
(* --- one collection --------------------------------------------------------*)
CollectFails(s, e) ==
  LET col == s.coll[e.cid]  r == col.r
      sy == SyncCells(s, r)  as == AsyncCells(s, r, col)  cells == sy \cup as
      own(p) == {k \in cells : Belongs(s, p, k)}
  IN IF e.err = "timeout" THEN (IF e.slow THEN {} ELSE {"timeout-without-cause"})
     ELSE IF e.err # "" THEN {"collect-raised"}
     ELSE  (IF \A j \in 1..Len(e.pts) : own(e.pts[j]) # {} THEN {} ELSE {"unexpected-point"})
      \cup (IF \A k \in cells : Cardinality({j \in 1..Len(e.pts) : Belongs(s, e.pts[j], k)}) <= 1 THEN {} ELSE {"duplicate-point"})
      \cup (IF \A k \in cells : Needed(s, k, col) => \E j \in 1..Len(e.pts) : Belongs(s, e.pts[j], k) THEN {} ELSE {"missing-point"})
      \cup UNION {UNION {ValueFails(s, k, e.pts[j], col) \cup MetaFails(s, k, e.pts[j]) \cup TimeFails(s, k, e.pts[j], col, e) : k \in own(e.pts[j])}
                  : j \in 1..Len(e.pts)}
      \cup (IF \A a, b \in 1..Len(e.pts) : e.pts[a].et = e.pts[b].et THEN {} ELSE {"different-end-times"})
      \cup (IF \A j \in 1..Len(e.pts) : e.pts[j].et >= s.last[r][1] THEN {} ELSE {"end-time-backwards"})
      \cup (IF Distinct(e.sg) /\ e.res THEN {} ELSE {"grouping"})
      \cup (IF \A i \in DOMAIN s.made : s.made[i] < col.call =>
                 \A b \in 1..s.c.inst[i].ncb : Cardinality({j \in 1..Len(col.cbs) : col.cbs[j] = <<i, b>>}) = 1
            THEN {} ELSE {"callback-count"})
      \cup (IF Distinct(col.cbs) THEN {} ELSE {"callback-twice"})
SFails(s, e) ==
  CASE e.op = "cret" -> CollectFails(s, e)
    [] e.op = "ret"  -> IF e.err = "" THEN {} ELSE {"record-raised"}
    [] e.op = "made" -> IF e.err = "" THEN {} ELSE {"create-raised"}
    [] e.op = "cb"   -> IF e.cid \in DOMAIN s.coll THEN {} ELSE {"callback-outside-collection"}
    [] e.op = "fail" -> {"fail-" \o e.what}
    [] OTHER -> {}
(* a collection that returned nothing took place somewhere within its call    *)
Window(s, e, col) ==
  LET w == IF e.pts = <<>> THEN <<col.t, e.t>> ELSE <<e.pts[1].et, e.pts[1].et>>
      o == s.last[col.r]
  IN IF col.call < s.lastRet[col.r] /\ (e.pts = <<>> \/ o[1] # o[2])      \* overlapping collections
     THEN <<IF o[1] < w[1] THEN o[1] ELSE w[1], IF o[2] > w[2] THEN o[2] ELSE w[2]>> ELSE w
RECURSIVE Upd(_, _, _, _)
Upd(s, e, col, j) ==
  IF j > Len(e.pts) THEN s.cells
  ELSE LET f == Upd(s, e, col, j + 1)  p == e.pts[j]
           ks == {k \in SyncCells(s, col.r) \cup AsyncCells(s, col.r, col) : Belongs(s, p, k)}
           k == CHOOSE k \in ks : TRUE
           cell == Cell(s, k)
           d == Temp(s, k) = "D"
           S == Taken(s, k, p, col)
       IN Ins(f, k, [used |-> cell.used \cup S, end |-> p.et, st |-> p.st,
                     prev |-> IF Async(s.c.inst[k[2]].k) /\ StreamOf(s, k).a = "sum" THEN SumObs(ObsOf(s, col, k)) ELSE 0])
SApply(s0, e) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  CASE e.op = "made" -> [s EXCEPT !.made = Ins(@, e.i, s.n)]
    [] e.op = "call" -> [s EXCEPT !.meas = Ins(@, e.id, [i |-> e.i, v |-> e.v, a |-> e.a, call |-> s.n, ret |-> 0])]
    [] e.op = "ret"  -> [s EXCEPT !.meas[e.id].ret = s.n]
    [] e.op = "ccall" -> [s EXCEPT !.coll = Ins(@, e.cid, [r |-> e.r, call |-> s.n, t |-> e.t, obs |-> <<>>, cbs |-> <<>>, done |-> FALSE])]
    [] e.op = "cb"   -> [s EXCEPT !.coll[e.cid].cbs = Append(@, <<e.i, e.b>>),
                                   !.coll[e.cid].obs = @ \o [j \in 1..Len(e.obs) |-> <<e.i, e.obs[j][1], e.obs[j][2]>>]]
    [] e.op = "cret" -> IF e.err # "" THEN [s EXCEPT !.coll[e.cid].done = TRUE]
                        ELSE LET col == s.coll[e.cid] IN
                             [s EXCEPT !.cells = Upd(s0, e, col, 1), !.coll[e.cid].done = TRUE, !.lastRet[col.r] = s.n,
                                       !.last[col.r] = Window(s0, e, col)]
    [] OTHER -> s
=============================================================================
