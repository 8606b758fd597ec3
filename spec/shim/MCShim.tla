------------------------------- MODULE MCShim -------------------------------
EXTENDS Shim, GenKit
MCfgs == {[flows |-> 2]}
MInit(c) == [m |-> SInit(c), n |-> 0, bad |-> {}]
See(w, e) == [w EXCEPT !.m = SApply(w.m, e), !.bad = @ \cup SFails(w.m, e), !.n = @ + 1]
N(w) == Len(w.m.sp)
Spans(w) == {<<"span", i>> : i \in 1..N(w)}
Ctxs(w) == {<<"ctx", i>> : i \in 1..Len(w.m.ctx)}
Some(W) == CHOOSE x \in W : TRUE
Bagged(s, e) == LET p == Some(Parents(s, e)) IN [e EXCEPT !.bag = IF e.api = "otel" \/ p.bag = {} THEN <<>> ELSE <<Some(p.bag)>>]
(* the parent is chosen as the specification would *)
Start(w, op) ==
  LET e0 == [op |-> "start", t |-> op.t, api |-> op.api, active |-> op.active, fin |-> op.fin, child |-> op.child, refs |-> op.refs, ignore |-> op.ignore, name |-> "n", tags |-> <<>>, st |-> AnyTime, err |-> "",
             tid |-> "", sid |-> "s" \o ToString(w.n), psid |-> "", links |-> <<>>, bag |-> <<>>]
      p == Some(Parents(w.m, e0))  V == Valid(w.m, op.refs)
  IN See(w, Bagged(w.m, [e0 EXCEPT !.psid = p.sid, !.tid = IF p.sid = "" THEN "t" \o ToString(w.n) ELSE p.tid, !.links = [i \in 1..Len(V) |-> LET a == At(w.m, V[i][2]) IN <<a.tid, a.sid>>]]))
MApply(w, op) ==
  CASE op.op = "start" -> Start(w, op)
    [] op.op = "leave" -> See(w, [op |-> "leave", t |-> op.t, exc |-> op.exc, prop |-> op.exc])
    [] op.op = "enter" -> See(w, [op |-> "enter", t |-> op.t, who |-> op.who, fin |-> op.fin, shim |-> op.shim])
    [] op.op = "setbag" -> See(w, [op |-> "setbag", n |-> op.n, k |-> "k", v |-> "v"])
    [] op.op = "extract" -> See(w, [op |-> "extract", binary |-> FALSE, err |-> "", tid |-> op.tid, sid |-> op.sid, bag |-> <<>>, sent |-> [tid |-> op.tid, sid |-> op.sid, bag |-> <<>>]])
    [] OTHER -> See(w, [op |-> "finish", n |-> op.n, et |-> AnyTime])
Go(t, api, act, ch, refs, ig) == [op |-> "start", t |-> t, api |-> api, active |-> act, fin |-> TRUE, child |-> ch, refs |-> refs, ignore |-> ig]
MOps(w) ==
  {Go(t, "ot", act, None, <<>>, ig) : t \in 1..2, act \in BOOLEAN, ig \in BOOLEAN}
  \cup {Go(1, "otel", act, None, <<>>, FALSE) : act \in BOOLEAN}
  \cup {Go(1, "ot", act, r, <<>>, FALSE) : act \in BOOLEAN, r \in Spans(w) \cup Ctxs(w)}
  \cup {Go(1, "ot", act, None, <<<<k, r>>>>, ig) : act \in BOOLEAN, ig \in BOOLEAN, k \in {"child"}, r \in Spans(w) \cup Ctxs(w) \cup {None}}
  \cup {Go(1, "ot", FALSE, None, <<<<"follows", r>>, <<"child", q>>>>, FALSE) : r \in Spans(w) \cup {None}, q \in Spans(w)}
  \cup {[op |-> "enter", t |-> t, who |-> r, fin |-> f, shim |-> h] : t \in 1..2, r \in Spans(w), f \in BOOLEAN, h \in BOOLEAN}
  \cup {[op |-> "leave", t |-> t, exc |-> x] : t \in {t \in 1..2 : w.m.st[t] # <<>>}, x \in BOOLEAN}
  \cup {[op |-> "setbag", n |-> i] : i \in 1..N(w)}
  \cup {[op |-> "finish", n |-> i] : i \in 1..N(w)}
  \cup (IF Len(w.m.ctx) < 2 THEN {[op |-> "extract", tid |-> "rt", sid |-> "rs" \o ToString(w.n)], [op |-> "extract", tid |-> "", sid |-> ""]} ELSE {})
(* A span's parent is an earlier span or came from elsewhere, in its trace;   *)
(* each span ends at most once.                                               *)
Inv == /\ ks.bad = {}
       /\ \A i \in 1..N(ks) : LET x == ks.m.sp[i] IN x.psid = "" \/ (\E j \in 1..i - 1 : ks.m.sp[j].sid = x.psid /\ ks.m.sp[j].tid = x.tid) \/ (\E j \in 1..Len(ks.m.ctx) : ks.m.ctx[j].sid = x.psid /\ ks.m.ctx[j].tid = x.tid)
       /\ \A i, j \in 1..Len(ks.m.done) : i # j => ks.m.done[i] # ks.m.done[j]
       /\ \A i \in 1..N(ks) : ks.m.sp[i].ended <=> i \in Set(ks.m.done)
=============================================================================
