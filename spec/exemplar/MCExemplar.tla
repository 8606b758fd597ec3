----------------------------- MODULE MCExemplar -----------------------------
(* A reservoir per reader as the SDK builds it (any admissible replacement    *)
(* choice), explored over short histories: what it reports is always accepted *)
(* by Exemplar, and never holds a measurement of an earlier interval.         *)
EXTENDS Exemplar, GenKit, SequencesExt
MCfgs == {[kind |-> k, filter |-> f, res |-> rs, size |-> 2, bd |-> IF rs = "aligned" THEN <<100, 600>> ELSE <<>>, all |-> al, keys |-> <<"k1">>, rd |-> <<"C", "D">>, conc |-> FALSE]
          : k \in {"counter", "hist", "gauge"}, f \in {"on", "off", "trace"}, rs \in {"simple"}, al \in {TRUE, FALSE}}
   \cup {[kind |-> "hist", filter |-> f, res |-> "aligned", size |-> 3, bd |-> <<100, 600>>, all |-> TRUE, keys |-> <<>>, rd |-> <<"C", "D">>, conc |-> FALSE] : f \in {"on", "trace"}}
A1 == <<<<"k1", <<"s:a">>>>, <<"k2", <<"s:x">>>>>>
A2 == <<<<"k1", <<"s:a">>>>, <<"k2", <<"s:y">>>>>>
MInit(c) == [m |-> SInit(c), bad |-> {}, res |-> <<>>, seen |-> <<>>, cells |-> {}]
K(w, r, a) == <<r, Kept(w.m.c, a)>>
G(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
N(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Put(q, i, id) == IF i <= Len(q) THEN [q EXCEPT ![i] = id] ELSE Append(q, id)
(* e.pick: where the reservoir puts it once it is full (0: nowhere)           *)
Store(w, k, id, v, pick) ==
  IF w.m.c.res = "aligned"
  THEN LET q == G(w.res, k)  b == Slot(w.m.c, v) IN Append(SelectSeq(q, LAMBDA x : Slot(w.m.c, w.m.meas[x].v) # b), id)
  ELSE LET q == G(w.res, k) IN IF Len(q) < w.m.c.size THEN Append(q, id) ELSE IF pick = 0 THEN q ELSE Put(q, pick, id)
Rec(w, e) ==
  LET id == ToString(w.m.n)
      c1 == [op |-> "call", id |-> id, v |-> (IF e.v = 1 THEN 0 ELSE 500) + w.m.n, a |-> e.a, r |-> 0, tid |-> e.tid, sid |-> e.tid, smp |-> e.smp, t |-> w.m.n]
      m1 == SApply(SApply(w.m, c1), [op |-> "ret", id |-> id, err |-> "", t |-> w.m.n])
      w1 == [w EXCEPT !.m = m1, !.cells = @ \cup {K(w, 1, e.a), K(w, 2, e.a)}]
  IN IF Admitted(m1, id)
     THEN [w1 EXCEPT !.res = [k \in DOMAIN w.res \cup {K(w, 1, e.a), K(w, 2, e.a)} |-> IF k[2] = Kept(w.m.c, e.a) THEN Store(w1, k, id, c1.v, e.pick) ELSE w.res[k]]]
     ELSE w1
Col(w, e) ==
  LET cid == ToString(w.m.n)  m1 == SApply(w.m, [op |-> "ccall", cid |-> cid, r |-> e.r])
      ks2 == {k \in w.cells : k[1] = e.r}
      ex(k) == [i \in 1..Len(G(w.res, k)) |-> LET x == m1.meas[G(w.res, k)[i]] IN [v |-> x.v, t |-> x.t0, tid |-> x.tid, sid |-> x.sid, fa |-> Dropped(m1.c, x.a)]]
      ev == [op |-> "cret", cid |-> cid, err |-> "", pts |-> SetToSeq({[at |-> k[2], v |-> 0, ex |-> ex(k)] : k \in ks2})]
  IN [w EXCEPT !.m = SApply(m1, ev), !.bad = @ \cup SFails(m1, ev), !.res = [k \in DOMAIN @ |-> IF k[1] = e.r THEN <<>> ELSE @[k]]]
MApply(w, e) == IF e.op = "rec" THEN Rec(w, e) ELSE Col(w, e)
MOps(w) == {[op |-> "rec", v |-> v, a |-> a, tid |-> x[1], smp |-> x[2], pick |-> p] :
             v \in {1, 3}, a \in {A1, A2}, x \in {<<"", FALSE>>, <<"T1", TRUE>>, <<"T2", FALSE>>}, p \in IF w.m.c.res = "simple" /\ ~Emit THEN {0, 2} ELSE {0}}
   \cup {[op |-> "col", r |-> r] : r \in 1..2}
Inv == ks.bad = {} /\ \A k \in DOMAIN ks.res : \A i \in 1..Len(ks.res[k]) : ks.res[k][i] \notin Used(ks.m, k)
=============================================================================
