------------------------------ MODULE MCScrape ------------------------------
(* Histories of recordings, flushes and scrapes; names are always valid and a *)
(* scrape's expected series name each cell once.                              *)
EXTENDS Scrape, GenKit
Ix(k, nm, un) == [k |-> k, nm |-> nm, un |-> un, ds |-> "d", bd |-> <<5, 10>>]
MCfgs == {[inst |-> <<Ix("counter", "c.total", "s"), Ix("gauge", "g", "1"), Ix("hist", "h", "By/s"), Ix("ocounter", "o_total", "{x}")>>, target |-> t, res |-> <<<<"r.a", <<"s", "v">>>>>>, conc |-> FALSE] : t \in {TRUE, FALSE}}
MInit(c) == SInit(c)
At == {<<>>, <<<<"k.1", <<"s", "a">>>>>>}
MOps(w) == {[op |-> "rec", i |-> i, a |-> a, v |-> v] : i \in 1..3, a \in At, v \in {7}} \cup {[op |-> o, i |-> 0, a |-> <<>>, v |-> 0] : o \in {"scrape", "flush"}}
         \cup {[op |-> "obs", i |-> 4, a |-> a, v |-> 3] : a \in At}
Id(w) == "x" \o ToString(w.n)
MApply(w, op) ==
  CASE op.op = "rec" -> SApply(SApply(w, [op |-> "call", id |-> Id(w), i |-> op.i, a |-> op.a, v |-> op.v]), [op |-> "ret", id |-> Id(w)])
    [] op.op = "obs" -> w
    [] OTHER -> SApply(SApply(w, [op |-> "scall", sid |-> Id(w)]), [op |-> "sret"])
Chars4 == {"a", "1", ".", "_", "/"}
Strs == {a \o b \o c : a \in Chars4, b \in Chars4 \cup {""}, c \in Chars4 \cup {""}} \cup {""}
ASSUME \A n \in Strs \ {""} : Valid(Name(n), TRUE)
ASSUME \A n \in Strs : Valid(Label(n), FALSE)
ASSUME \A n \in Strs : LET u == Unit(n) IN u = "" \/ \A i \in 1..Len(u) : SubSeq(u, i, i) = "_" \/ Keep(SubSeq(u, i, i), TRUE)
ASSUME Unit("m/s") = "meters_per_second" /\ Unit("{a}") = "" /\ Unit("1/s") = "per_second" /\ Unit("a{b}c") = "ac" /\ Unit("By") = "bytes" /\ Unit("a/") = "a"
Now == [call |-> ks.n + 1, obs |-> <<>>, cbs |-> <<>>]
Inv == LET x == Expected(ks, Now) IN
       /\ \A p, q \in x : p.sn = q.sn /\ p.lb = q.lb => p = q
       /\ \A p \in x : p.lo = p.hi /\ ~p.opt
       /\ \A p \in x : Valid(p.sn, TRUE) /\ \A l \in p.lb : Valid(l[1], FALSE)
=============================================================================
