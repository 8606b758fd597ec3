------------------------------- MODULE MCRes --------------------------------
(* Chains of merges and creations from environment, arguments and detectors;  *)
(* the rules of precedence stated on their own.                               *)
EXTENDS Resource, GenKit
A == <<97>>
B == <<98>>
V(n) == Str \o <<48 + n>>
S1 == <<<<ServiceName, <<115,58,109,105,110,101>>>>>>
MCfgs == {[kind |-> "merge"], [kind |-> "create"]}
Pool == {[m |-> m, u |-> u] : m \in {<<>>, <<<<A, V(1)>>>>, <<<<A, V(2)>>, <<B, V(2)>>>>}, u \in {"", "u1", "u2"}}
Dflt == <<<<<<116,101,108,101,109,101,116,114,121,46,115,100,107,46,108,97,110,103,117,97,103,101>>, V(0)>>, <<<<116,101,108,101,109,101,116,114,121,46,115,100,107,46,110,97,109,101>>, V(0)>>, <<<<116,101,108,101,109,101,116,114,121,46,115,100,107,46,118,101,114,115,105,111,110>>, V(0)>>>>
Envs == {<<>>, <<97,61,49>>, <<32,97,32,61,32,120,37,50,48,121,32,44,98,61,44,61,122,44,106,117,110,107>>, <<115,101,114,118,105,99,101,46,110,97,109,101,61,101,110,118,44,97,61,98,61,99>>, <<116,101,108,101,109,101,116,114,121,46,115,100,107,46,110,97,109,101,61,101,44,115,101,114,118,105,99,101,46,110,97,109,101,61>>, <<112,114,111,99,101,115,115,46,101,120,101,99,117,116,97,98,108,101,46,110,97,109,101,61,112,121,44,97,61,37,101,57,37,67,51,37,97,57>>, <<44,44,97,61,49,44,97,61,50>>}
Expl == {<<>>, <<<<A, V(3)>>>>, S1, <<<<ServiceName, Str>>>>, <<<<<<116,101,108,101,109,101,116,114,121,46,115,100,107,46,110,97,109,101>>, V(4)>>, <<Executable, <<115,58,101,120,101>>>>>>}
D(k, dem, dur, m, u) == [kind |-> k, demand |-> dem, dur |-> dur, m |-> m, u |-> u]
C == <<99>>
Dets == {<<>>, <<D("ok", FALSE, 0, <<<<C, V(5)>>>>, "u2")>>, <<D("raise", FALSE, 0, <<>>, ""), D("ok", FALSE, 100, <<<<C, V(5)>>>>, "")>>, <<D("raise", TRUE, 0, <<>>, "")>>,
         <<D("hang", FALSE, 0, <<>>, ""), D("missing", FALSE, 0, <<>>, ""), D("ok", FALSE, 4000, <<<<C, V(6)>>>>, "u1")>>,
         <<D("ok", TRUE, 6000, <<<<C, V(5)>>>>, "")>>, [i \in 1..5 |-> IF i < 5 THEN D("hang", FALSE, 0, <<>>, "") ELSE D("ok", FALSE, 0, <<<<C, V(5)>>>>, "")]}
MInit(c) == IF c.kind = "merge" THEN [kind |-> c.kind, r |-> Res(<<>>, ""), bad |-> {}] ELSE [kind |-> c.kind, done |-> FALSE, bad |-> {}]
MOps(w) == IF w.kind = "merge" THEN {[op |-> "merge", b |-> p] : p \in Pool}
           ELSE IF w.done THEN {} ELSE {[op |-> "create", env |-> v, svc |-> sv, attrs |-> x, url |-> u, ds |-> d] : v \in Envs, sv \in {<<>>, <<115>>}, x \in Expl, u \in {"", "u1"}, d \in Dets}
Laws(op) ==
  LET e == op @@ [dflt |-> Dflt, timeout |-> 5000]
      env == Env(op.env, op.svc)
  IN UNION {IF w.raised THEN (IF \E i \in 1..Len(op.ds) : op.ds[i].demand THEN {} ELSE {"raised"})
     ELSE LET r == w.r
              lost == \E i \in 1..Len(op.ds) : op.ds[i].u # "" /\ op.url # "" /\ op.ds[i].u # op.url
              x == SetAll(None, op.attrs)
          IN (IF ~SdkKeys \subseteq DOMAIN r.m THEN {"sdk"} ELSE {})
             \cup (IF ServiceName \notin DOMAIN r.m \/ Len(r.m[ServiceName]) <= 2 THEN {"service"} ELSE {})
             \cup (IF ~lost /\ \E k \in DOMAIN x : x[k] # r.m[k] /\ ~(k = ServiceName /\ x[k] = Str) THEN {"explicit"} ELSE {})
             \cup (IF \E k \in DOMAIN env.m \ DOMAIN x : k # ServiceName /\ (k \notin DOMAIN r.m \/ r.m[k] # env.m[k]) THEN {"env"} ELSE {})
             \cup (IF \E k \in DOMAIN r.m : k \notin SdkKeys \cup DOMAIN x \cup DOMAIN env.m \cup {ServiceName} \cup UNION {DOMAIN SetAll(None, op.ds[i].m) : i \in 1..Len(op.ds)} THEN {"invented"} ELSE {})
     : w \in Results(e)}
MApply(w, op) ==
  IF op.op = "merge" THEN LET b == Res(op.b.m, op.b.u)  r == Merge(w.r, b) IN
       [w EXCEPT !.r = r, !.bad = (IF Conflict(w.r, b) THEN IF r = w.r THEN {} ELSE {"conflict"}
                                   ELSE IF DOMAIN r.m = DOMAIN w.r.m \cup DOMAIN b.m /\ (\A k \in DOMAIN r.m : r.m[k] = IF k \in DOMAIN b.m THEN b.m[k] ELSE w.r.m[k]) /\ (r.u = "" => w.r.u = "" /\ b.u = "") /\ (w.r.u # "" => r.u = w.r.u) THEN {} ELSE {"union"})]
  ELSE [w EXCEPT !.bad = Laws(op), !.done = TRUE]
Inv == ks.bad = {}
=============================================================================
