-------------------------------- MODULE TSHist -------------------------------
EXTENDS TraceState
(* Histories: numbered trace states, every one observed again later.          *)
SInit(c) == [made |-> (0 :> <<>>), out |-> (0 :> <<>>)]
Result(s, e) == CASE e.op = "make" -> Make(e.ps) [] e.op = "parse" -> Parse(e.hs)
                  [] e.op = "add" -> Add(s.made[e.from], e.k, e.v) [] e.op = "update" -> Update(s.made[e.from], e.k, e.v)
                  [] e.op = "delete" -> Delete(s.made[e.from], e.k)
                  [] e.op = "reparse" -> Parse(<<e.h>>)
SFails(s, e) ==
  CASE e.op = "look" -> (IF s.made[e.c] # e.got THEN {"trace-state-changed"} ELSE {}) \cup (IF ~WellFormed(e.got) THEN {"invalid-entries"} ELSE {})
    [] e.op = "mut" -> IF e.refused THEN {} ELSE {"modified-in-place"}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> (IF e.got # Result(s, e) THEN {"result-of-" \o e.op} ELSE {})
           \cup (IF ~WellFormed(e.got) THEN {"invalid-entries"} ELSE {})
           \cup (IF e.op = "reparse" /\ e.got # s.made[e.from] THEN {"header-round-trip"} ELSE {})
SApply(s, e) == IF e.op \in {"look", "mut", "fail"} THEN s ELSE [s EXCEPT !.made = (e.c :> Result(s, e)) @@ @]
=============================================================================
