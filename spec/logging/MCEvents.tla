------------------------------- MODULE MCEvents -------------------------------
(* Events with each field set or not, within each kind of span.                *)
EXTENDS Events, GenKit, FiniteSets
MCfgs == {[provider |-> p] : p \in {"given", "global", "proxy", "absent", "disabled", "noop"}}
E0 == [op |-> "emit", name |-> "e", attrs |-> <<>>, bodyk |-> "none", sev |-> 0, ts |-> "unset", ids |-> "none", flags |-> -1, span |-> "none"]
As == {<<>>, <<<<"s:k", <<"s:v">>>>>>, <<<<"s:event.name", <<"s:mine">>>>, <<"s:n", <<"L", "i:1", "n:">>>>>>, <<<<"s:bad", <<"O:obj">>>>, <<"s:", <<"i:1">>>>>>}
Emits == {[E0 EXCEPT !.ids = i, !.flags = f, !.span = p, !.sev = v] : i \in {"none", "trace", "both"}, f \in {-1, 0, 1}, p \in {"none", "sampled", "unsampled"}, v \in {0, 17}}
         \cup {[E0 EXCEPT !.attrs = a, !.bodyk = b, !.ts = t] : a \in As, b \in {"none", "text", "map", "object", "zero"}, t \in {"unset", "given"}}
MInit(c) == [s |-> SInit(c), n |-> 0]
MOps(w) == Emits \cup {[op |-> "setglobal"]}
MApply(w, op) == [s |-> SApply(w.s, op), n |-> IF op.op = "emit" /\ Enabled(w.s) THEN w.n + 1 ELSE w.n]
Inv == (ks.s.c.provider \in {"absent", "disabled", "noop"} => ks.n = 0)
(* every event keeps a name, its own                                           *)
ASSUME \A a \in As : LET m == Want([attrs |-> a, name |-> "e"]) IN Cardinality({i \in 1..Len(m) : m[i][1] = "s:event.name"}) = 1 /\ \E i \in 1..Len(m) : m[i] = <<"s:event.name", <<"s:e">>>>
=============================================================================
