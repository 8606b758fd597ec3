------------------------------- MODULE MCAttr --------------------------------
EXTENDS AttrHist, GenKit
K == {"s:a", "s:b", "s:c"}
V == {<<"s:xy">>, <<"i:1">>, <<"O:obj">>, <<"L", "s:pq", "n:", "y:rs">>, <<"L", "i:1", "b:true">>, <<"n:">>}
MCfgs == [max : {-1, 0, 1, 2}, vl : {-1, 1}, imm : {FALSE, TRUE}]
MInit(c) == SInit(c) @@ [bad |-> {}, new |-> FALSE, puts |-> 0]
New == {<<>>, <<<<"s:a", <<"s:xy">>>>, <<"s:b", <<"i:1">>>>, <<"s:", <<"i:1">>>>, <<"i:5", <<"i:1">>>>, <<"s:c", <<"L", "s:pq">>>>>>}
MOps(w) == IF ~w.new THEN {[op |-> "new", kv |-> k] : k \in New}
           ELSE [op : {"set"}, k : K, v : V] \cup [op : {"del", "pop"}, k : {"s:a", "s:b"}] \cup [op : {"setdefault"}, k : {"s:a", "s:c"}, v : {<<"s:xy">>}]
                \cup {[op |-> "clear"], [op |-> "copy"], [op |-> "update", kv |-> <<<<"s:c", <<"i:9">>>>, <<"s:a", <<"O:dict">>>>, <<"s:b", <<"s:long">>>>>>]}
(* stated on their own: bounds, valid entries only, the last one set is there *)
Bad(s, op, m) ==
  (IF s.c.max # -1 /\ Len(m.o) > s.c.max THEN {"bound"} ELSE {})
  \cup (IF ~LenOk(m, s.c.vl) THEN {"length"} ELSE {})
  \cup (IF \E i \in 1..Len(m.o) : ~ValidKey(m.o[i][1]) \/ m.o[i][2] = Invalid \/ CleanVal(m.o[i][2], s.c.vl) # m.o[i][2] THEN {"invalid-kept"} ELSE {})
  \cup (IF op.op = "set" /\ ~s.c.imm /\ s.c.max # 0 /\ CleanVal(op.v, s.c.vl) # Invalid /\ ~(Has(m.o, op.k) /\ m.o[Len(m.o)] = <<op.k, CleanVal(op.v, s.c.vl)>>) THEN {"last-set-missing"} ELSE {})
  \cup (IF s.c.imm /\ op.op # "new" /\ m # s.m THEN {"immutable-changed"} ELSE {})
  \cup (IF m.d < s.m.d THEN {"count"} ELSE {})
MApply(w, op) == LET m == After(w, op) IN [w EXCEPT !.m = m, !.new = TRUE, !.bad = Bad(w, op, m)]
Inv == ks.bad = {}
=============================================================================
