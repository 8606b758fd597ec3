------------------------------- MODULE BagHist -------------------------------
EXTENDS Baggage
(* Histories of contexts; context 0 is empty.                                 *)
SInit(c) == (0 :> None)
Result(s, e) == CASE e.op = "set" -> Set(s[e.from], e.k, e.v) [] e.op = "remove" -> Remove(s[e.from], e.k)
                  [] e.op = "clear" -> None
                  [] e.op = "ext" -> IF e.h = <<>> THEN s[e.from] ELSE SetAll(s[e.from], Parse(e.h[1]))
                  [] e.op = "hop" -> SetAll(s[e.from], [i \in 1..Len(e.sent) |-> e.sent[i]])
Within(h) == Len(h) <= MaxHeader /\ \A i \in 1..Len(Members(h)) : Len(Members(h)[i]) <= MaxMember
SFails(s, e) ==
  CASE e.op = "look" -> (IF ~Is(s[e.c], e.got) THEN {"baggage-changed"} ELSE {})
                        \cup (IF \E i \in 1..Len(e.one) : (e.one[i] # <<>> /\ (e.ks[i] \notin DOMAIN s[e.c] \/ e.one[i][1] # s[e.c][e.ks[i]]))
                                 \/ (e.one[i] = <<>> /\ e.ks[i] \in DOMAIN s[e.c]) THEN {"get-baggage"} ELSE {})
    [] e.op = "mut" -> IF e.refused THEN {} ELSE {"modified-in-place"}
    [] e.op = "inj" -> IF e.raised THEN {"inject-raised"}
                       ELSE IF DOMAIN s[e.c] = {} THEN (IF e.n = 0 THEN {} ELSE {"wrote-without-baggage"})
                       ELSE IF e.n # 1 THEN {"headers-written"}
                       ELSE IF ~Within(e.h) \/ Len(Members(e.h)) > MaxMembers THEN {}
                       ELSE LET p == Parse(e.h) IN IF Is(s[e.c], p) THEN {} ELSE {"injected-baggage-differs"}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> IF e.raised THEN {e.op \o "-raised"} ELSE IF ~Is(Result(s, e), e.got) THEN {"result-of-" \o e.op} ELSE {}
SApply(s, e) == IF e.op \in {"look", "mut", "inj", "fail"} THEN s ELSE (e.c :> Result(s, e)) @@ s
=============================================================================
