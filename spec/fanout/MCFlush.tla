------------------------------- MODULE MCFlush ------------------------------
(* Sequential histories: processors added, each with the outcomes and         *)
(* durations of its flushes, events, flushes with a timeout, a shutdown.      *)
(* A model of the fan-out produces the events, the specification judges them. *)
EXTENDS Fanout, GenKit
MCfgs == [kind : {"seq", "par"}, slack : {0}]
MInit(c) == [m |-> SInit(c), t |-> 0, n |-> 0, ps |-> <<>>, bad |-> {}]
RECURSIVE See(_, _)
See(w, es) == IF es = <<>> THEN w ELSE See([w EXCEPT !.m = SApply(w.m, es[1]), !.bad = @ \cup SFails(w.m, es[1])], Tail(es))
Out(o) == o
RECURSIVE Flush(_, _, _, _)
Flush(w, f, i, tmo) ==
  LET s == w.m  rem == tmo - (w.t - s.fl[f].t) IN
  IF i > Len(w.ps) THEN See(w, <<[op |-> "flr", f |-> f, t |-> w.t, r |-> "true"]>>)
  ELSE IF rem <= 0 THEN See(w, <<[op |-> "flr", f |-> f, t |-> w.t, r |-> "false"]>>)
  ELSE LET p == w.ps[i]
           t2 == w.t + p.d
           w1 == See([w EXCEPT !.t = t2], <<[op |-> "flp", f |-> f, p |-> i, tmo |-> rem, t |-> w.t], [op |-> "flpr", f |-> f, p |-> i, r |-> p.o]>>)
       IN IF p.o = "true" THEN Flush(w1, f, i + 1, tmo) ELSE See(w1, <<[op |-> "flr", f |-> f, t |-> t2, r |-> p.o]>>)
MApply(w, op) ==
  CASE op.op = "add" -> LET p == Len(w.ps) + 1 IN See([w EXCEPT !.ps = Append(@, op)], <<[op |-> "addc", p |-> p], [op |-> "addr", p |-> p]>>)
    [] op.op = "ev" -> See([w EXCEPT !.n = @ + 1], <<[op |-> "evc", x |-> w.n + 1, kind |-> op.kind]>> \o [i \in 1..Len(w.ps) |-> [op |-> "got", x |-> w.n + 1, p |-> i, kind |-> op.kind]] \o <<[op |-> "evr", x |-> w.n + 1, err |-> ""]>>)
    [] OTHER -> IF w.m.c.kind = "par" THEN [w EXCEPT !.n = @ + 1]      \* judged on the code only
                ELSE Flush(See([w EXCEPT !.n = @ + 1], <<[op |-> "flc", f |-> w.n + 1, t |-> w.t, tmo |-> op.tmo]>>), w.n + 1, 1, op.tmo)
MOps(w) == (IF Len(w.ps) < 3 THEN [op : {"add"}, d : {0, 400000, 1000000, 1500000}, o : {"true", "false", "raise"}] ELSE {})
           \cup [op : {"ev"}, kind : {"emit"}] \cup [op : {"flush"}, tmo : {1000000, 2000500}]
Inv == ks.bad = {}
=============================================================================
