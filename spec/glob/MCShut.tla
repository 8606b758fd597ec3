-------------------------------- MODULE MCShut --------------------------------
(* Scripts of registering, using, shutting down and leaving the process.      *)
EXTENDS Shutdown, GenKit
CONSTANT MaxParts
MCfgs == [sig : {"trace", "metrics", "logs"}, multi : {"seq", "conc"}, onexit : BOOLEAN, disabled : BOOLEAN]
MInit(c) == [m |-> SInit(c), n |-> 0, bad |-> {}, over |-> FALSE]
MOps(w) == IF w.over THEN {[op |-> "stop"]}
           ELSE {[op |-> "shut"], [op |-> "use"], [op |-> "exit"]} \cup
                (IF Cardinality(DOMAIN w.m.parts) < MaxParts /\ (w.m.c.sig = "metrics" => w.n = 0) THEN [op : {"add"}, raises : BOOLEAN] ELSE {})
RECURSIVE Run(_, _)
Run(w, evs) == IF evs = <<>> THEN w ELSE Run([w EXCEPT !.bad = @ \cup SFails(w.m, evs[1]), !.m = SApply(w.m, evs[1])], Tail(evs))
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<[op |-> "part", p |-> x], [op |-> "parte", p |-> x]>> \o SeqOf(S \ {x})
\* what a right provider does
Todo(w) == IF w.m.first = 0 THEN SeqOf(DOMAIN w.m.parts) ELSE <<>>
MApply(w, op) ==
  CASE op.op = "add" -> Run(w, <<[op |-> "add", p |-> Cardinality(DOMAIN w.m.parts) + 1, raises |-> op.raises]>>)
    [] op.op = "shut" -> LET t == w.n + 1 IN [Run(w, <<[op |-> "shb", t |-> t]>> \o Todo(w) \o <<[op |-> "she", t |-> t, raised |-> w.m.first = 0 /\ Mine(w.m) # {}]>>) EXCEPT !.n = t]
    [] op.op = "exit" -> [Run(w, <<[op |-> "exit"]>> \o (IF w.m.c.onexit THEN Todo(w) ELSE <<>>) \o <<[op |-> "final"]>>) EXCEPT !.over = TRUE]
    [] op.op = "use" -> [Run(w, (IF w.m.c.disabled THEN <<>> ELSE <<[op |-> "rec"]>>) \o <<[op |-> "use", raised |-> FALSE]>>) EXCEPT !.n = IF @ = 0 THEN 1 ELSE @]
    [] OTHER -> w
Inv == ks.bad = {} /\ ks.m.shut \subseteq ks.m.due /\ (ks.over /\ (ks.m.c.onexit \/ ks.m.first # 0) => ks.m.due = ks.m.shut)
=============================================================================
