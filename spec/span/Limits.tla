------------------------------- MODULE Limits -------------------------------
(* Resolution of the span limits from explicit arguments, environment and     *)
(* defaults (T05).  A setting is "u" (not given), "n" (explicitly unlimited), *)
(* or a decimal string, possibly invalid.                                     *)
EXTENDS Integers, Sequences, TLC
Names == {"events", "links", "span_attributes", "event_attributes", "link_attributes", "attribute_length", "span_attribute_length"}
Bad(x) == x \in {"-1", "-5", "abc", "1.5"}
(* One level: argument, then environment, then the fallback.                  *)
Res(arg, env, fallback) ==
  IF arg # "u" THEN arg ELSE IF env = "u" THEN fallback ELSE env
Gen(e, n) == Res(e.arg[n], e.env[n], "u")
Default == [events |-> "128", links |-> "128", span_attributes |-> "128", event_attributes |-> "128", link_attributes |-> "128", attribute_length |-> "n", span_attribute_length |-> "n"]
General(n) == IF n \in {"span_attributes", "event_attributes", "link_attributes"} THEN "attributes"
              ELSE IF n = "span_attribute_length" THEN "attribute_length" ELSE ""
Limit(e, n) ==
  LET own == Res(e.arg[n], e.env[n], "u")
      g == General(n)
      gen == IF g = "" THEN "u" ELSE Res(e.arg[g], e.env[g], "u")
  IN IF own # "u" THEN own ELSE IF gen # "u" THEN gen ELSE Default[n]
(* A setting that is read and invalid is rejected.                            *)
Settings == Names \cup {"attributes"}
Rejected(e) == \E n \in Settings : Bad(IF e.arg[n] # "u" THEN e.arg[n] ELSE e.env[n])
SInit(c) == 0
SApply(s, e) == s
SFails(s, e) ==
  IF Rejected(e) THEN (IF e.out.raised = "ValueError" THEN {} ELSE {"invalid-setting-not-rejected"})
  ELSE IF e.out.raised # "" THEN {"valid-setting-rejected"}
  ELSE {n \in Names : e.out.v[n] # Limit(e, n)}
=============================================================================
