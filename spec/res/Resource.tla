------------------------------ MODULE Resource ------------------------------
(* Resources (R01).  A resource is a map from keys to values, both sequences  *)
(* of code points (a value begins with the tag of its type, e.g. "s:"), and a *)
(* schema URL ("" for none).  Merging, the environment, and detection.        *)
EXTENDS Baggage
J == INSTANCE Jaeger
ServiceName == <<115,101,114,118,105,99,101,46,110,97,109,101>>
Executable == <<112,114,111,99,101,115,115,46,101,120,101,99,117,116,97,98,108,101,46,110,97,109,101>>
Unknown == <<115,58,117,110,107,110,111,119,110,95,115,101,114,118,105,99,101>>
SdkKeys == {<<116,101,108,101,109,101,116,114,121,46,115,100,107,46,108,97,110,103,117,97,103,101>>, <<116,101,108,101,109,101,116,114,121,46,115,100,107,46,110,97,109,101>>, <<116,101,108,101,109,101,116,114,121,46,115,100,107,46,118,101,114,115,105,111,110>>}
Str == <<115, 58>>
Res(ps, u) == [m |-> SetAll(None, ps), u |-> u]
Conflict(a, b) == a.u # "" /\ b.u # "" /\ a.u # b.u
Merge(a, b) == IF Conflict(a, b) THEN a ELSE [m |-> b.m @@ a.m, u |-> IF a.u = "" THEN b.u ELSE a.u]
(* OTEL_RESOURCE_ATTRIBUTES and OTEL_SERVICE_NAME                             *)
EnvItem(i) == LET w == Where(i, 61) IN
  IF w = <<>> THEN <<>>
  ELSE LET k == Trim(SubSeq(i, 1, w[1] - 1)) IN
       IF k = <<>> THEN <<>> ELSE <<<<k, Str \o J!JDec(Trim(SubSeq(i, w[1] + 1, Len(i))), 1)>>>>
RECURSIVE EnvItems(_)
EnvItems(l) == IF l = <<>> THEN <<>> ELSE EnvItem(l[1]) \o EnvItems(Tail(l))
Env(attrs, svc) == Res((IF attrs = <<>> THEN <<>> ELSE EnvItems(Split(attrs, 44))) \o (IF svc = <<>> THEN <<>> ELSE <<<<ServiceName, Str \o svc>>>>), "")
(* Detection: detectors in order, the set in of late ones that were waited    *)
(* for long enough because of others.                                         *)
Late(d, t) == d.kind = "hang" \/ (d.kind \in {"ok", "raise"} /\ d.dur > t)
MayBe(d, t, n) == d.kind # "hang" /\ d.dur > t /\ d.dur <= n * t
RECURSIVE Detect(_, _, _, _, _)
Detect(r, ds, i, t, in) ==
  IF i > Len(ds) THEN [raised |-> FALSE, r |-> r]
  ELSE IF ds[i].kind = "missing" THEN Detect(r, ds, i + 1, t, in)
  ELSE IF (Late(ds[i], t) /\ i \notin in) \/ ds[i].kind = "raise"
       THEN IF ds[i].demand THEN [raised |-> TRUE, r |-> r] ELSE Detect(r, ds, i + 1, t, in)
  ELSE Detect(Merge(r, Res(ds[i].m, ds[i].u)), ds, i + 1, t, in)
Named(r) == IF ServiceName \in DOMAIN r.m /\ r.m[ServiceName] \notin {Str} THEN r
            ELSE LET x == IF Executable \in DOMAIN r.m /\ Len(r.m[Executable]) > 2 THEN <<58>> \o SubSeq(r.m[Executable], 3, Len(r.m[Executable])) ELSE <<>> IN
                 [r EXCEPT !.m = (ServiceName :> (Unknown \o x)) @@ @]
Results(e) ==
  LET n == Len(e.ds)
      may == {i \in 1..n : MayBe(e.ds[i], e.timeout, n)}
      start == IF e.op = "create" THEN Merge(Res(e.dflt, ""), Env(e.env, e.svc)) ELSE Res(e.init.m, e.init.u)
  IN {LET d == Detect(start, e.ds, 1, e.timeout, in) IN
      IF d.raised THEN d ELSE [d EXCEPT !.r = IF e.op = "create" THEN Named(Merge(@, Res(e.attrs, e.url))) ELSE @] : in \in SUBSET may}
Same(r, o) == Is(r.m, o.m) /\ r.u = o.u
SInit(c) == [x |-> 0]
SFails(s, e) ==
  CASE e.op = "merge" ->
        LET a == Res(e.a.m, e.a.u)  b == Res(e.b.m, e.b.u) IN
        IF e.raised THEN {"merge-raised"} ELSE
        (IF ~Same(Merge(a, b), e.r) THEN {"wrong-merge"} ELSE {})
        \cup (IF ~Same(a, e.a2) \/ ~Same(b, e.b2) THEN {"merge-changed-an-input"} ELSE {})
        \cup (IF e.error # Conflict(a, b) THEN {"wrong-error-log"} ELSE {})
    [] e.op \in {"create", "aggregate"} ->
        LET want == Results(e) IN
        (IF e.raised THEN (IF \E w \in want : w.raised THEN {} ELSE {"detection-raised"})
         ELSE (IF \A w \in want : w.raised THEN {"demanded-error-swallowed"} ELSE {})
              \cup (IF ~\E w \in want : ~w.raised /\ Same(w.r, e.r) THEN {"wrong-resource"} ELSE {})
              \cup (IF e.r2 # e.r THEN {"resource-changed-later"} ELSE {})
              \cup (IF e.op = "create" /\ ~SdkKeys \subseteq {e.r.m[i][1] : i \in 1..Len(e.r.m)} THEN {"no-sdk-identification"} ELSE {})
              \cup (IF e.op = "create" /\ ~\E i \in 1..Len(e.r.m) : e.r.m[i][1] = ServiceName /\ e.r.m[i][2] # Str THEN {"no-service-name"} ELSE {}))
        \cup (IF e.elapsed > Len(e.ds) * e.timeout + 500 THEN {"timeout-exceeded"} ELSE {})
        \cup (IF ~e.kept THEN {"input-changed"} ELSE {})
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) == s
=============================================================================
