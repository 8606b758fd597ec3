----------------------------- MODULE MCMetrics ------------------------------
(* Sequential exploration of the metric specification with the ideal SDK:     *)
(* every collection reports exactly what the specification demands.           *)
EXTENDS Metrics, GenKit, SequencesExt
No == [a |-> "", bd |-> <<>>, mm |-> TRUE]
In(k, nm, ad, ncb) == [k |-> k, cname |-> nm, nm |-> nm, un |-> "u", ds |-> "d", sc |-> 1, ad |-> ad, ncb |-> ncb]
AllK == {"counter", "udc", "hist", "gauge", "ocounter", "oudc", "ogauge"}
Rd(t) == [tp |-> [k \in AllK |-> t], ag |-> [k \in AllK |-> No]]
Vw(type, name, vname, keys, all, agg, bd, mm) ==
  [type |-> type, name |-> name, unit |-> "", mname |-> "", mver |-> "", murl |-> "", vname |-> vname, vdesc |-> "", keys |-> keys, all |-> all, agg |-> agg, bd |-> bd, mm |-> mm]
Base(inst, views) == [inst |-> inst, views |-> views, rd |-> <<Rd("C"), Rd("D")>>, sc |-> <<[nm |-> "m", ver |-> "1", url |-> "u"]>>, defb |-> <<0, 20, 40>>]
MCfgs == {
  Base(<<In("counter", "x", <<>>, 0)>>, <<>>),
  Base(<<In("counter", "x", <<>>, 0)>>, <<Vw("", "x", "", <<"k1">>, FALSE, "", <<>>, TRUE), Vw("counter", "x", "y", <<>>, FALSE, "", <<>>, TRUE)>>),
  Base(<<In("udc", "x", <<>>, 0)>>, <<Vw("udc", "", "", <<>>, TRUE, "last", <<>>, TRUE)>>),
  Base(<<In("hist", "x", <<4>>, 0)>>, <<Vw("", "x", "h", <<>>, TRUE, "hist", <<-4, 8>>, FALSE), Vw("hist", "", "", <<"k2">>, FALSE, "", <<>>, TRUE)>>),
  Base(<<In("hist", "x", <<>>, 0)>>, <<Vw("", "x", "", <<"k1">>, FALSE, "exp", <<>>, TRUE)>>),
  Base(<<In("gauge", "x", <<>>, 0)>>, <<>>),
  Base(<<In("ocounter", "x", <<>>, 1)>>, <<>>),
  Base(<<In("oudc", "x", <<>>, 2), In("counter", "z", <<>>, 0)>>, <<Vw("", "x", "", <<"k1">>, FALSE, "", <<>>, TRUE)>>),
  Base(<<In("ogauge", "x", <<>>, 1)>>, <<Vw("", "z", "", <<>>, TRUE, "drop", <<>>, TRUE)>>),
  Base(<<In("counter", "x", <<>>, 0), In("udc", "z", <<>>, 0)>>, <<Vw("", "z", "", <<>>, TRUE, "drop", <<>>, TRUE)>>) }
A1 == <<<<"k1", <<"s:a">>>>>>
A2 == <<<<"k1", <<"s:b">>>>, <<"k2", <<"s:a">>>>>>
Atts == {<<>>, A1, A2}
(* the point the specification demands of a cell                              *)
Ideal(s, k, col, t) ==
  LET n == s.c.inst[k[2]]  st == StreamOf(s, k)  as == Async(n.k)  d == Temp(s, k) = "D"  cell == Cell(s, k)
      S == IF as THEN {} ELSE IF st.a = "last" THEN {m \in May(s, k) : m \notin cell.used} ELSE IF d THEN May(s, k) \ cell.used ELSE May(s, k)
      late == CHOOSE m \in S : \A o \in S : s.meas[o].call <= s.meas[m].call
      q == ObsOf(s, col, k)
      h == st.a = "hist"  hx == st.a \in {"hist", "exp"}
  IN [sc |-> n.sc, nm |-> st.nm, ds |-> st.ds, un |-> n.un, kd |-> KindOf(s, k), tp |-> IF st.a = "last" THEN "" ELSE Temp(s, k), mo |-> st.a = "sum" /\ Mono(n.k),
      at |-> k[4], st |-> IF st.a = "last" THEN -1 ELSE IF d THEN (IF cell.end >= 0 THEN IF as THEN cell.end ELSE s.last[k[1]][1] ELSE 0) ELSE IF cell.st >= 0 THEN cell.st ELSE 0,
      et |-> t, v |-> IF as THEN IF st.a = "last" THEN q[Len(q)][3] ELSE SumObs(q) - (IF d THEN cell.prev ELSE 0)
                      ELSE IF st.a = "last" THEN s.meas[late].v ELSE SumV(s, S),
      bk |-> IF h THEN [j \in 1..(Len(st.bd) + 1) |-> Cardinality({m \in S : InBucket(st.bd, j, s.meas[m].v)})] ELSE <<>>,
      bd |-> st.bd, cnt |-> IF hx THEN Cardinality(S) ELSE 0, hm |-> ~hx \/ (st.mm /\ S # {}), mn |-> IF hx /\ st.mm THEN SMin(s, S) ELSE 0, mx |-> IF hx /\ st.mm THEN SMax(s, S) ELSE 0]
RECURSIVE Feed(_, _)
Feed(w, es) == IF es = <<>> THEN w
               ELSE Feed([m |-> SApply(w.m, es[1]), bad |-> w.bad \cup SFails(w.m, es[1]), acc |-> w.acc, t |-> w.t], Tail(es))
MInit(c) == Feed([m |-> SInit(c), bad |-> {}, acc |-> <<>>, t |-> 1], [i \in 1..Len(c.inst) |-> [op |-> "made", i |-> i, err |-> ""]])
Rec(w, e) == LET id == ToString(w.m.n) IN
             Feed(w, <<[op |-> "call", id |-> id, i |-> e.i, v |-> e.v, a |-> e.a], [op |-> "ret", id |-> id, err |-> ""]>>)
Col(w, e) ==
  LET cid == ToString(w.m.n)
      w1 == Feed(w, <<[op |-> "ccall", cid |-> cid, r |-> e.r, t |-> w.t]>> \o
                    SetToSeq({[op |-> "cb", cid |-> cid, i |-> ib[1], b |-> ib[2], obs |-> IF ib[2] = 1 THEN e.obs ELSE <<>>] :
                              ib \in {<<i, b>> \in (1..Len(w.m.c.inst)) \X (1..2) : b <= w.m.c.inst[i].ncb}}))
      s == w1.m  col == s.coll[cid]
      ks2 == {k \in SyncCells(s, e.r) \cup AsyncCells(s, e.r, col) : Needed(s, k, col)}
      pts == SetToSeq({Ideal(s, k, col, w.t) : k \in ks2})
      w2 == Feed(w1, <<[op |-> "cret", cid |-> cid, err |-> "", slow |-> FALSE, pts |-> pts, sg |-> IF pts = <<>> THEN <<>> ELSE <<1>>, res |-> TRUE, t |-> w.t]>>)
      ds == {k \in ks2 : Temp(s, k) = "D" /\ StreamOf(s, k).a # "last"}
  IN [w2 EXCEPT !.t = @ + 1,
                !.acc = [k \in DOMAIN w.acc \cup ds |-> (IF k \in DOMAIN w.acc THEN w.acc[k] ELSE 0) + (IF k \in ds THEN Ideal(s, k, col, w.t).v ELSE 0)]]
MApply(w, e) == IF e.op = "rec" THEN Rec(w, e) ELSE Col(w, e)
Vals(k) == IF k = "hist" THEN {-4, 4, 9} ELSE {4, -1}
Obss == {<<>>, <<<<A1, 5>>>>, <<<<A1, 3>>, <<A2, 8>>, <<A1, 4>>>>}
MOps(w) == LET c == w.m.c  as == \E i \in 1..Len(c.inst) : Async(c.inst[i].k) IN
     UNION {{[op |-> "rec", i |-> i, v |-> v, a |-> a] : v \in Vals(c.inst[i].k), a \in Atts} : i \in {x \in 1..Len(c.inst) : ~Async(c.inst[x].k)}}
   \cup {[op |-> "col", r |-> r, obs |-> o] : r \in 1..2, o \in IF as THEN Obss ELSE {<<>>}}
(* the deltas of a cell add up to what a cumulative reader would see          *)
Accum == \A k \in DOMAIN ks.acc :
           IF Async(ks.m.c.inst[k[2]].k) THEN ks.acc[k] = Cell(ks.m, k).prev
           ELSE ks.acc[k] = SumV(ks.m, Cell(ks.m, k).used)
Inv == ks.bad = {} /\ Accum
=============================================================================
