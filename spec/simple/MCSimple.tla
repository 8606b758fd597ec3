------------------------------ MODULE MCSimple ------------------------------
(* Histories of one thread: contexts attached and detached around items with  *)
(* every outcome of the exporter.  The model of the processor is composed     *)
(* with the specification.                                                    *)
EXTENDS Simple, GenKit
MCfgs == [kind : {"span", "log", "metric"}]
MInit(c) == [m |-> SInit(c), n |-> 0, d |-> 0, bad |-> {}]
RECURSIVE See(_, _)
See(w, es) == IF es = <<>> THEN w ELSE See([w EXCEPT !.m = SApply(w.m, es[1]), !.bad = @ \cup SFails(w.m, es[1])], Tail(es))
Item(w, op) ==
  LET id == w.n + 1  cx == Ctx(w.m, "a")
      x == [op |-> "X", t |-> "a", ids |-> <<id>>, sup |-> TRUE, ctx |-> cx, o |-> op.o]
      e == See([w EXCEPT !.n = id], <<[op |-> "call", t |-> "a", id |-> id, smp |-> op.smp]>>)
      y == IF op.smp /\ ~w.m.down THEN See(e, <<x, [op |-> "XE", t |-> "a", sup |-> TRUE]>>) ELSE e
  IN See(y, <<[op |-> "ret", t |-> "a", id |-> id, smp |-> op.smp, err |-> IF op.o = "kill" /\ op.smp THEN "kill" ELSE ""],
              [op |-> "ctx", t |-> "a", ctx |-> cx, sup |-> FALSE]>>)
MApply(w, op) ==
  CASE op.op = "att" -> See([w EXCEPT !.d = @ + 1], <<[op |-> "att", t |-> "a", v |-> op.v]>>)
    [] op.op = "det" -> See([w EXCEPT !.d = @ - 1], <<[op |-> "det", t |-> "a"]>>)
    [] OTHER -> Item(w, op)
MOps(w) == [op : {"att"}, v : {1, 2}] \cup (IF w.d > 0 THEN {[op |-> "det"]} ELSE {})
           \cup [op : {"item"}, smp : {TRUE, FALSE}, o : {"ok", "fail", "raise", "kill", "leak", "nest"}]
Inv == ks.bad = {} /\ ks.m.got \subseteq ks.m.was
=============================================================================
