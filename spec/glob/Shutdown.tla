------------------------------- MODULE Shutdown -------------------------------
(* Shutdown of one tracer, meter or logger provider and its parts (G02).  A    *)
(* part is a processor or reader (or the exporter behind it); its shutdown may *)
(* raise.  Calls have a beginning and an end, others run in between.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
SInit(c) == [c |-> c, parts |-> [x \in {} |-> FALSE], due |-> {}, first |-> 0, open |-> {}, early |-> {}, over |-> FALSE, calls |-> {}, shut |-> {}, done |-> {}]
Mine(s) == {p \in DOMAIN s.parts : s.parts[p]}        \* parts whose shutdown raises
SFails(s, e) ==
  CASE e.op = "part" -> IF e.p \in s.shut THEN {"shut-down-twice"}
                        ELSE IF s.calls = {} THEN {"shut-down-unasked"} ELSE {}
    [] e.op = "she" -> (IF e.raised /\ ~(e.t \in s.early /\ Mine(s) # {}) THEN {"shutdown-raised"} ELSE {})
                  \* once no call is under way any more
                  \cup (IF s.open = {e.t} /\ ~(s.due \subseteq s.shut) THEN {"part-not-shut-down"} ELSE {})
                  \cup (IF s.open = {e.t} /\ ~(s.due \subseteq s.done) THEN {"returned-before-a-part-was-shut-down"} ELSE {})
    [] e.op = "use" -> IF e.raised THEN {"use-raised"} ELSE {}
    [] e.op = "rec" -> IF s.c.disabled THEN {"recorded-although-disabled"} ELSE {}
    [] e.op = "final" -> IF ~(s.due \subseteq s.shut) THEN {"part-never-shut-down"} ELSE {}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
Call(s, t) == [s EXCEPT !.calls = @ \cup {t}, !.first = IF @ = 0 THEN t ELSE @, !.due = IF s.first = 0 THEN DOMAIN s.parts ELSE @,
                          !.open = @ \cup {t}, !.early = IF s.over THEN @ ELSE @ \cup {t}]
SApply(s, e) ==
  CASE e.op = "add" -> [s EXCEPT !.parts = (e.p :> e.raises) @@ @]
    [] e.op = "shb" -> Call(s, e.t)
    [] e.op = "she" -> [s EXCEPT !.open = @ \ {e.t}, !.over = TRUE]
    [] e.op = "exit" -> IF s.c.onexit THEN Call(s, 1000) ELSE s
    [] e.op = "part" -> [s EXCEPT !.shut = @ \cup {e.p}]
    [] e.op = "parte" -> [s EXCEPT !.done = @ \cup {e.p}]
    [] OTHER -> s
=============================================================================
