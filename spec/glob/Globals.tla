------------------------------- MODULE Globals -------------------------------
(* Histories of one signal's global provider (G01): sets, readings, tracers / *)
(* meters / instruments made early or late, and what they record, each with   *)
(* its beginning and end as other threads run in between.  Provider 0 is the  *)
(* placeholder; numbers from 100 on are providers loaded from the environment.*)
EXTENDS Integers, Sequences, FiniteSets, TLC
SInit(c) == [c |-> c, begun |-> {}, ended |-> FALSE, win |-> 0, gets |-> [x \in {} |-> FALSE], inst |-> [x \in {} |-> <<>>], ready |-> {}, bad |-> {}, meas |-> [x \in {} |-> [id |-> 0, must |-> FALSE]]]
Known(s) == s.ended \/ s.win # 0
Provs(e) == {e.made[i].p : i \in 1..Len(e.made)} \cup {e.rec[i].p : i \in 1..Len(e.rec)}
Final(s, e) ==
  LET made(id) == SelectSeq(e.made, LAMBDA x : x.id = id)
      rec(m) == SelectSeq(e.rec, LAMBDA x : x.m = m)
  IN (IF Cardinality(Provs(e) \cup (IF s.win = 0 THEN {} ELSE {s.win})) > 1 THEN {"two-providers-in-use"} ELSE {})
     \cup (IF \E p \in Provs(e) : p < 100 /\ p \notin s.begun THEN {"provider-never-set-in-use"} ELSE {})
     \cup (IF s.c.sig = "metrics" /\ Known(s) /\ \E id \in s.ready \ s.bad : Len(made(id)) # 1 THEN {"not-backed-by-exactly-one-instrument"} ELSE {})
     \cup (IF s.c.sig = "metrics" /\ \E i \in 1..Len(e.made) : e.made[i].id \notin DOMAIN s.inst \/ (e.made[i].id \in DOMAIN s.inst /\ e.made[i].d # s.inst[e.made[i].id]) THEN {"definition-changed"} ELSE {})
     \cup (IF \E i \in 1..Len(e.rec) : e.rec[i].m \notin DOMAIN s.meas THEN {"record-invented"} ELSE {})
     \cup (IF \E m \in DOMAIN s.meas : Len(rec(m)) > 1 THEN {"recorded-twice"} ELSE {})
     \cup (IF \E m \in DOMAIN s.meas : s.meas[m].must /\ s.meas[m].id \notin s.bad /\ Len(rec(m)) = 0 THEN {"disconnected"} ELSE {})
     \cup (IF \E m \in DOMAIN s.meas : \E i \in 1..Len(rec(m)) : rec(m)[i].id # s.meas[m].id \/ rec(m)[i].d # s.inst[s.meas[m].id] THEN {"recorded-elsewhere"} ELSE {})
SFails(s, e) ==
  CASE e.op = "gete" -> (IF e.i = 0 /\ (s.gets[e.t] \/ s.c.env) THEN {"placeholder-after-a-provider-was-set"} ELSE {})
                   \cup (IF e.i # 0 /\ s.win # 0 /\ e.i # s.win THEN {"provider-changed"} ELSE {})
                   \cup (IF e.i # 0 /\ e.i \notin s.begun /\ ~(s.c.env /\ e.i >= 100) THEN {"unknown-provider"} ELSE {})
                   \cup (IF e.raised THEN {"reading-raised"} ELSE {})
    [] e.op = "sete" -> IF e.raised THEN {"set-raised"} ELSE {}
    [] e.op = "mke" -> IF e.raised /\ ~e.invalid THEN {"creation-raised"} ELSE {}
    [] e.op = "me" -> IF e.raised THEN {"use-raised"} ELSE {}
    [] e.op = "final" -> Final(s, e)
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) ==
  CASE e.op = "setb" -> [s EXCEPT !.begun = @ \cup {e.i}]
    [] e.op = "sete" -> [s EXCEPT !.ended = TRUE]
    [] e.op = "getb" -> [s EXCEPT !.gets = (e.t :> Known(s)) @@ @]
    [] e.op = "gete" -> [s EXCEPT !.win = IF e.i # 0 THEN e.i ELSE @]
    [] e.op = "mkb" -> [s EXCEPT !.inst = (e.id :> e.d) @@ @]
    [] e.op = "mke" -> [s EXCEPT !.ready = IF e.raised THEN @ ELSE @ \cup {e.id}, !.bad = IF e.invalid THEN @ \cup {e.id} ELSE @]
    [] e.op = "mb" -> [s EXCEPT !.meas = (e.m :> [id |-> e.id, must |-> s.ended]) @@ @]
    [] OTHER -> s
=============================================================================
