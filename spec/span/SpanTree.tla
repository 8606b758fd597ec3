------------------------------ MODULE SpanTree ------------------------------
(* Starting spans: identity and parenting (T07) and sampling (T08).           *)
(* A span context is [tid, sid, ts, rem, smp]; "0" is the zero id.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoCtx == [tid |-> "0", sid |-> "0", ts |-> "", rem |-> FALSE, smp |-> FALSE]
Valid(x) == x.tid # "0" /\ x.sid # "0"
(* cfg: sampler description, scope, resource, nproc                           *)
SInit(c) == [c |-> c, stack |-> <<NoCtx>>, sp |-> <<>>, sids |-> {}, tids |-> {}, open |-> <<>>, seen |-> {},
             asked |-> [r \in {} |-> {}]]
Top(s) == s.stack[Len(s.stack)]
(* The context in which the span is started: current, an explicit context     *)
(* holding a known span, an explicit remote or arbitrary one, or none.        *)
Parent(s, e) == CASE e.par = "cur"   -> Top(s)
                  [] e.par = "empty" -> NoCtx
                  [] e.par = "ctx"   -> e.pctx
                  [] OTHER           -> s.sp[e.par].ctx       \* an earlier span
(* Decision of a sampler; a ratio sampler's own verdict on the trace id is    *)
(* e.rd[rank], constrained separately by RatioOk.                             *)
RECURSIVE Decide(_, _, _, _)
Decide(m, p, e, tid) ==
  CASE m.k = "on"  -> "samp"
    [] m.k = "off" -> "drop"
    [] m.k = "ratio" -> IF e.rd[m.r] THEN "samp" ELSE "drop"
    [] m.k = "custom" -> e.verdict
    [] m.k = "parent" -> Decide(IF ~Valid(p) THEN m.root
                                ELSE IF p.rem THEN (IF p.smp THEN m.rs ELSE m.rn)
                                ELSE (IF p.smp THEN m.ls ELSE m.ln), p, e, tid)
RECURSIVE Leaf(_, _)
Leaf(m, p) == IF m.k # "parent" THEN m
              ELSE Leaf(IF ~Valid(p) THEN m.root ELSE IF p.rem THEN (IF p.smp THEN m.rs ELSE m.rn) ELSE (IF p.smp THEN m.ls ELSE m.ln), p)
Custom(s, p) == Leaf(s.c.sampler, p).k = "custom"
ExpTs(s, p, e) == IF Custom(s, p) THEN e.cts ELSE IF Valid(p) THEN p.ts ELSE ""

(* New span: e.o is the observed context, e.gt / e.gs the ids the configured  *)
(* generator produced during the call.                                        *)
StartFails(s, e) ==
  IF e.raised # "" THEN {"raised"} ELSE
  LET p == Parent(s, e)  o == e.o  d == Decide(s.c.sampler, p, e, o.tid) IN
     (IF Valid(p) => o.tid = p.tid THEN {} ELSE {"trace-id-of-parent"})
  \cup (IF ~Valid(p) => o.tid # "0" /\ o.tid \notin s.tids /\ \E i \in 1..Len(e.gt) : e.gt[i] = o.tid THEN {} ELSE {"fresh-trace-id"})
  \cup (IF o.sid # "0" /\ o.sid \notin s.sids /\ \E i \in 1..Len(e.gs) : e.gs[i] = o.sid THEN {} ELSE {"own-span-id"})
  \cup (IF ~o.rem THEN {} ELSE {"not-remote"})
  \cup (IF o.ts = ExpTs(s, p, e) THEN {} ELSE {"trace-state"})
  \cup (IF o.smp = (d = "samp") THEN {} ELSE {"sampled-flag"})
  \cup (IF e.rec = (d # "drop") THEN {} ELSE {"recording"})
  \cup (IF e.started = (IF d = "drop" THEN 0 ELSE 1) THEN {} ELSE {"processor-start"})
  \cup (IF e.consulted = (IF Custom(s, p) THEN 1 ELSE 0) THEN {} ELSE {"delegate-consulted"})
  \cup (IF d # "drop" THEN
           (IF e.parent = (IF Valid(p) THEN <<p.tid, p.sid, p.ts, p.rem, p.smp>> ELSE <<>>) THEN {} ELSE {"parent-recorded"})
           \cup (IF e.got = e.gave THEN {} ELSE {"creation-data"})
           \cup (IF e.gotres = s.c.res /\ e.gotscope = s.c.scope THEN {} ELSE {"resource-or-scope"})
        ELSE {})
EndFails(s, e) ==
  LET d == s.sp[e.id].d IN
     (IF e.ended = (IF d = "drop" THEN 0 ELSE 1) THEN {} ELSE {"processor-end"})
  \cup (IF e.simple = (IF d = "samp" THEN <<e.id>> ELSE <<>>) THEN {} ELSE {"simple-export"})
SampledIds(s) == {i \in DOMAIN s.sp : s.sp[i].d = "samp"} \cap s.seen
(* verdicts of ratio samplers, asked directly: [r, tid, d]                    *)
RatioFails(s, e) ==
  LET known == IF e.tid \in DOMAIN s.asked THEN s.asked[e.tid] ELSE {} IN
     (IF e.r = 0 /\ e.d THEN {"ratio-0-samples"} ELSE {})
  \cup (IF e.r = 1000000 /\ ~e.d THEN {"ratio-1-drops"} ELSE {})
  \cup (IF \A k \in known : (k[2] /\ e.r >= k[1] => e.d) /\ (~k[2] /\ e.r <= k[1] => ~e.d) THEN {} ELSE {"ratio-not-monotone"})
SFails(s, e) ==
  CASE e.op = "start" -> StartFails(s, e)
    [] e.op = "end"   -> EndFails(s, e)
    [] e.op = "ratio" -> RatioFails(s, e)
    [] e.op = "gen"   -> IF e.id # "0" THEN {} ELSE {"generator-zero-id"}
    [] e.op = "flush" -> IF {e.batch[i] : i \in 1..Len(e.batch)} = SampledIds(s) /\ Len(e.batch) = Cardinality(SampledIds(s)) THEN {} ELSE {"batch-export"}
    [] OTHER -> {}
Ins(f, k, v) == (k :> v) @@ f
SApply(s, e) ==
  CASE e.op = "start" /\ e.raised # "" -> s
    [] e.op = "start" ->
        LET p == Parent(s, e)  d == Decide(s.c.sampler, p, e, e.o.tid) IN
        [s EXCEPT !.sp = Ins(@, e.id, [ctx |-> e.o, d |-> d, par |-> p]), !.sids = @ \cup {e.o.sid}, !.tids = @ \cup {e.o.tid}]
    [] e.op = "use"   -> [s EXCEPT !.stack = Append(@, IF e.id = "remote" THEN e.pctx ELSE s.sp[e.id].ctx)]
    [] e.op = "unuse" -> [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] e.op = "end"   -> [s EXCEPT !.seen = @ \cup {e.id}]
    [] e.op = "ratio" -> [s EXCEPT !.asked = Ins(@, e.tid, (IF e.tid \in DOMAIN @ THEN @[e.tid] ELSE {}) \cup {<<e.r, e.d>>})]
    [] OTHER -> s
-----------------------------------------------------------------------------
(* Invariants of the specification itself.                                    *)
Tree(s) == \A i \in DOMAIN s.sp :
   LET x == s.sp[i] IN
   /\ Valid(x.ctx)
   /\ Valid(x.par) => x.ctx.tid = x.par.tid
   /\ \A j \in DOMAIN s.sp : i # j => s.sp[j].ctx.sid # x.ctx.sid
   /\ (x.d = "samp") = x.ctx.smp
(* with the default parent-based samplers a trace is sampled as a whole       *)
Whole(s) == s.c.sampler.k = "parent" /\ s.c.sampler.std =>
   \A i \in DOMAIN s.sp : Valid(s.sp[i].par) => s.sp[i].ctx.smp = s.sp[i].par.smp
=============================================================================
