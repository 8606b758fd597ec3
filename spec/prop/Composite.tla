------------------------------ MODULE Composite ------------------------------
(* Composite propagators, the global propagator and its configuration (P06).  *)
(* A propagator is [k: "leaf", id, w: pairs written, f: fields, s: pairs set  *)
(* in the context] or [k: "comp", of: propagators].  A carrier or context is  *)
(* a sequence of <<key, value>> in order of first writing.                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Put(m, p) == IF \E i \in 1..Len(m) : m[i][1] = p[1] THEN [i \in 1..Len(m) |-> IF m[i][1] = p[1] THEN p ELSE m[i]] ELSE Append(m, p)
RECURSIVE PutAll(_, _)
PutAll(m, ps) == IF ps = <<>> THEN m ELSE PutAll(Put(m, ps[1]), Tail(ps))
RECURSIVE Leaves(_), LeavesAll(_)
Leaves(p) == IF p.k = "leaf" THEN <<p>> ELSE LeavesAll(p.of)
LeavesAll(ps) == IF ps = <<>> THEN <<>> ELSE Leaves(ps[1]) \o LeavesAll(Tail(ps))
RECURSIVE Written(_, _), Stored(_, _)
Written(ls, m) == IF ls = <<>> THEN m ELSE Written(Tail(ls), PutAll(m, ls[1].w))
Stored(ls, m) == IF ls = <<>> THEN m ELSE Stored(Tail(ls), PutAll(m, ls[1].s))
Ids(ls) == [i \in 1..Len(ls) |-> ls[i].id]
AsSet(q) == {q[i] : i \in 1..Len(q)}
FieldsOf(ls) == UNION {AsSet(ls[i].f) : i \in 1..Len(ls)}
(* The environment: names separated by commas, with optional spaces.          *)
Real(n) == CASE n = "tracecontext" -> [w |-> <<"traceparent", "tracestate">>, f |-> {"traceparent", "tracestate"}]
             [] n = "baggage" -> [w |-> <<"baggage">>, f |-> {"baggage"}]
             [] n = "b3" -> [w |-> <<"b3">>, f |-> {"b3"}]
             [] n = "b3multi" -> [w |-> <<"x-b3-traceid", "x-b3-spanid", "x-b3-sampled">>, f |-> {"x-b3-traceid", "x-b3-spanid", "x-b3-sampled"}]
             [] n = "jaeger" -> [w |-> <<"uber-trace-id", "uberctx-k">>, f |-> {"uber-trace-id"}]
             [] OTHER -> [w |-> <<>>, f |-> {}]
Known == {"tracecontext", "baggage", "b3", "b3multi", "jaeger"}
RECURSIVE Keys(_, _)
Keys(ns, acc) == IF ns = <<>> THEN acc ELSE Keys(Tail(ns), acc \o SelectSeq(Real(ns[1]).w, LAMBDA k : ~\E i \in 1..Len(acc) : acc[i] = k))
Unknown(ns) == \E i \in 1..Len(ns) : ns[i] \notin Known \cup {"none"}
HasNone(ns) == \E i \in 1..Len(ns) : ns[i] = "none"
Wanted(e) == IF e.unset THEN <<"tracecontext", "baggage">> ELSE IF e.names = <<"none">> THEN <<>> ELSE e.names
(* Histories: the propagator that is the global one; 0 is the default.        *)
SInit(c) == [g |-> 0]
Tree(e) == Leaves(e.p)
SFails(s, e) ==
  CASE e.op = "inj" -> (IF e.raised THEN {"inject-raised"} ELSE {})
                  \cup (IF e.calls # Ids(Tree(e)) THEN {"not-each-once-in-order"} ELSE {})
                  \cup (IF e.got # Written(Tree(e), e.before) THEN {"carrier"} ELSE {})
                  \cup (IF ~e.args THEN {"context-or-setter-not-passed-on"} ELSE {})
    [] e.op = "ext" -> (IF e.raised THEN {"extract-raised"} ELSE {})
                  \cup (IF e.calls # Ids(Tree(e)) THEN {"not-each-once-in-order"} ELSE {})
                  \cup (IF ~e.none /\ e.got # Stored(Tree(e), e.before) THEN {"context"} ELSE {})
                  \cup (IF e.none /\ e.got # Stored(Tree(e), <<>>) THEN {"context"} ELSE {})
                  \cup (IF ~e.args THEN {"carrier-or-getter-not-passed-on"} ELSE {})
                  \cup (IF ~e.iscontext THEN {"extract-returned-no-context"} ELSE {})
    [] e.op = "fields" -> IF AsSet(e.got) # FieldsOf(Tree(e)) \/ Cardinality(AsSet(e.got)) # Len(e.got) THEN {"fields"} ELSE {}
    [] e.op = "global" -> IF e.got # s.g THEN {"global-propagator"} ELSE {}
    [] e.op = "env" -> IF ~e.unset /\ HasNone(e.names) /\ e.names # <<"none">> THEN {}
                       ELSE IF ~e.unset /\ Unknown(e.names)
                       THEN IF e.error = "ValueError" THEN {} ELSE {"unknown-name-accepted"}
                       ELSE IF e.error # "" THEN {"import-failed"}
                       ELSE LET ns == Wanted(e) IN
                            (IF e.keys # Keys(ns, <<>>) THEN {"environment-injects"} ELSE {})
                            \cup (IF AsSet(e.fields) # UNION {Real(ns[i]).f : i \in 1..Len(ns)} THEN {"environment-fields"} ELSE {})
                            \cup (IF e.span # (ns # <<>> /\ \E i \in 1..Len(ns) : ns[i] # "baggage") THEN {"environment-extracts"} ELSE {})
                            \cup (IF e.bag # (\E i \in 1..Len(ns) : ns[i] \in {"baggage", "jaeger"}) THEN {"environment-extracts-baggage"} ELSE {})
                            \cup (IF ~e.iscontext THEN {"extract-returned-no-context"} ELSE {})
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) == IF e.op = "setglobal" THEN [s EXCEPT !.g = e.id] ELSE s
=============================================================================
