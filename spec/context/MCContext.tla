------------------------------ MODULE MCContext ------------------------------
(* Histories of several flows; the invariants are the scoping guarantees.     *)
EXTENDS Context, GenKit
MCfgs == {[x |-> 0]}
MInit(c) == [m |-> SInit(c), nf |-> 1, nc |-> 0, nt |-> 0, ns |-> 0, bad |-> {}]
See(w, e) == [w EXCEPT !.m = SApply(w.m, e), !.bad = @ \cup SFails(w.m, e)]
MApply(w, op) ==
  CASE op.op = "spawn" -> See([w EXCEPT !.nf = @ + 1], [op |-> "spawn", f |-> op.f, g |-> w.nf + 1, how |-> op.how])
    [] op.op = "set" -> LET e == [op |-> "mk", f |-> op.f, k |-> op.k, v |-> op.v, from |-> 0, c |-> w.nc + 1, got |-> Put(w.m.cur[op.f], op.k, op.v)]
                        IN See(See([w EXCEPT !.nc = @ + 1, !.nt = @ + 1], e), [op |-> "att", f |-> op.f, c |-> w.nc + 1, tok |-> w.nt + 1])
    [] op.op = "det" -> See(w, [op |-> "det", f |-> op.f, tok |-> op.tok, err |-> ""])
    [] op.op = "ent" -> See([w EXCEPT !.ns = @ + 1], [op |-> "ent", f |-> op.f, sp |-> w.ns + 1, end |-> op.end])
    [] OTHER -> See(w, [op |-> "ext", f |-> op.f, out |-> op.out, prop |-> op.out # "ok", ended |-> IF Top(w.m, op.f).end THEN <<Top(w.m, op.f).sp>> ELSE <<>>])
MOps(w) == UNION {
   (IF w.nf < 2 THEN [op : {"spawn"}, f : {f}, how : {"thread", "task"}] ELSE {})
   \cup [op : {"set"}, f : {f}, k : {"a", "b"}, v : {1}]
   \cup [op : {"det"}, f : {f}, tok : 1..w.nt]
   \cup [op : {"ent"}, f : {f}, how : {"with", "fn"}, end : {TRUE, FALSE}]
   \cup (IF w.m.blk[f] # <<>> THEN [op : {"ext"}, f : {f}, out : {"ok", "exc", "base"}] ELSE {}) : f \in 1..w.nf}
(* A flow entered blocks one inside the other, and leaves no trace of those   *)
(* it has left.                                                               *)
Inv == /\ ks.bad = {}
       /\ \A f \in DOMAIN ks.m.cur : \A i \in 1..Len(ks.m.blk[f]) - 1 : ks.m.blk[f][i].sp < ks.m.blk[f][i + 1].sp
       /\ \A f \in DOMAIN ks.m.cur : ks.m.cur[f].sp \in 0..ks.ns
=============================================================================
