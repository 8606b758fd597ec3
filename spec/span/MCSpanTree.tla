----------------------------- MODULE MCSpanTree -----------------------------
EXTENDS SpanTree, GenKit
On == [k |-> "on"]  Off == [k |-> "off"]
P(r, rs, rn, ls, ln, std) == [k |-> "parent", std |-> std, root |-> r, rs |-> rs, rn |-> rn, ls |-> ls, ln |-> ln]
Samplers == {On, Off, [k |-> "ratio", r |-> "500000"], [k |-> "custom"], P(On, On, Off, On, Off, TRUE), P([k |-> "ratio", r |-> "500000"], On, Off, On, Off, TRUE),
             P(Off, Off, On, [k |-> "custom"], On, FALSE)}
MCfgs == {[sampler |-> m, res |-> "r", scope |-> "s"] : m \in Samplers}
R1 == [tid |-> "R1", sid |-> "q1", ts |-> "a=1", rem |-> TRUE, smp |-> TRUE]
R2 == [tid |-> "R2", sid |-> "q2", ts |-> "", rem |-> TRUE, smp |-> FALSE]
R3 == [tid |-> "R3", sid |-> "0", ts |-> "b=2", rem |-> TRUE, smp |-> TRUE]
N(s) == Cardinality(DOMAIN s.sp)
Id(n) == ToString(n)
MkStart(s, par, pctx, v, coin) ==
  LET p == CASE par = "cur" -> Top(s) [] par = "empty" -> NoCtx [] par = "ctx" -> pctx [] OTHER -> s.sp[par].ctx
      n == Id(N(s) + 1)
      tid == IF Valid(p) THEN p.tid ELSE "t" \o n
      e == [op |-> "start", id |-> n, par |-> par, pctx |-> pctx, verdict |-> v, cts |-> "c=9", rd |-> ("500000" :> coin), coin |-> coin, raised |-> ""]
      d == Decide(s.c.sampler, p, e, tid)
  IN [o |-> [tid |-> tid, sid |-> "s" \o n, ts |-> ExpTs(s, p, e), rem |-> FALSE, smp |-> d = "samp"]] @@ e
MOps(s) == {MkStart(s, par, NoCtx, v, c) : par \in {"cur", "empty"} \cup DOMAIN s.sp, v \in {"rec", "samp"}, c \in {TRUE, FALSE}}
   \cup {MkStart(s, "ctx", x, v, TRUE) : x \in {R1, R2, R3}, v \in {"drop", "samp"}}
   \cup {[op |-> "use", id |-> i] : i \in DOMAIN s.sp} \cup {[op |-> "use", id |-> "remote", pctx |-> x] : x \in {R1, R3}}
   \cup (IF Len(s.stack) > 1 THEN {[op |-> "unuse"]} ELSE {})
Inv == Tree(ks) /\ Whole(ks)
=============================================================================
