-------------------------------- MODULE MCTS --------------------------------
(* Histories of trace states over few keys, starting empty or nearly full.    *)
EXTENDS TSHist, GenKit
MCfgs == {[n |-> n] : n \in {0, 31, 32}}
Ks == {<<97>>, <<98>>, <<49, 64, 118>>, <<107, 49>>, <<65>>}
Vs == {<<120>>, <<32, 121>>, <<61>>}
Fill(n) == [i \in 1..n |-> <<IF i < 10 THEN <<107, 48 + i>> ELSE <<107, 48 + (i \div 10), 48 + (i % 10)>>, <<118>>>>]
See(w, e) == [w EXCEPT !.m = SApply(w.m, e), !.bad = @ \cup SFails(w.m, e), !.nc = IF e.op = "look" THEN @ ELSE e.c]
Do(w, op) == LET e == op @@ [c |-> w.nc + 1, h |-> Header(w.m.made[op.from])] IN See(w, e @@ [got |-> Result(w.m, e)])
MInit(c) == Do([m |-> SInit(c), nc |-> 0, bad |-> {}], [op |-> "make", ps |-> Fill(c.n), from |-> 0])
MApply(w, op) == Do(w, op)
MOps(w) == [op : {"add", "update"}, from : {w.nc}, k : Ks, v : Vs]
           \cup [op : {"delete"}, from : {w.nc, 1}, k : Ks] \cup [op : {"reparse"}, from : {w.nc}]
(* Every trace state ever made is well formed, and its header parses back.    *)
Inv == /\ ks.bad = {}
       /\ \A i \in DOMAIN ks.m.made : WellFormed(ks.m.made[i]) /\ Parse(<<Header(ks.m.made[i])>>) = ks.m.made[i]
=============================================================================
