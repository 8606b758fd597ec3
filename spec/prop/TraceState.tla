----------------------------- MODULE TraceState -----------------------------
(* W3C trace state (P02): a sequence of <<key, value>>, at most 32, each key  *)
(* once; immutable, newest entry first.                                       *)
EXTENDS Chars, TLC
KeyRest == Lower \cup Digit \cup {95, 45, 42, 47}
ValChar == (32..126) \ {44, 61}
ValidKey(k) ==
  \/ Len(k) \in 1..256 /\ k[1] \in Lower /\ All(k, KeyRest)
  \/ LET a == Where(k, 64) IN
     /\ Len(a) = 1
     /\ LET t == SubSeq(k, 1, a[1] - 1)  v == SubSeq(k, a[1] + 1, Len(k)) IN
        /\ Len(t) \in 1..241 /\ t[1] \in Lower \cup Digit /\ All(t, KeyRest)
        /\ Len(v) \in 1..14 /\ v[1] \in Lower /\ All(v, KeyRest)
ValidVal(v) == Len(v) \in 1..256 /\ All(v, ValChar) /\ v[Len(v)] # 32
ValidPair(p) == ValidKey(p[1]) /\ ValidVal(p[2])
HasKey(ts, k) == \E i \in 1..Len(ts) : ts[i][1] = k
Drop(ts, k) == SelectSeq(ts, LAMBDA p : p[1] # k)
WellFormed(ts) == /\ Len(ts) <= 32
                  /\ \A i \in 1..Len(ts) : ValidPair(ts[i])
                  /\ \A i, j \in 1..Len(ts) : i # j => ts[i][1] # ts[j][1]
RECURSIVE Dedup(_, _)
Dedup(ps, acc) == IF ps = <<>> THEN acc
                  ELSE Dedup(Tail(ps), IF ValidPair(ps[1]) /\ ~HasKey(acc, ps[1][1]) THEN Append(acc, ps[1]) ELSE acc)
Make(ps) == IF Len(ps) > 32 THEN <<>> ELSE Dedup(ps, <<>>)
Add(ts, k, v) == IF ~ValidPair(<<k, v>>) \/ Len(ts) >= 32 \/ HasKey(ts, k) THEN ts ELSE <<<<k, v>>>> \o ts
Update(ts, k, v) == IF ~ValidPair(<<k, v>>) \/ (Len(ts) >= 32 /\ ~HasKey(ts, k)) THEN ts ELSE <<<<k, v>>>> \o Drop(ts, k)
Delete(ts, k) == Drop(ts, k)
(* Parsing one or more headers: empty members are skipped; anything malformed *)
(* discards everything.                                                       *)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
MemberPair(m) == LET w == Where(m, 61) IN
                 IF Len(w) = 0 THEN <<<<>>, <<>>>> ELSE <<SubSeq(m, 1, w[1] - 1), RTrim(SubSeq(m, w[1] + 1, Len(m)))>>
Parse(hs) ==
  LET ms == SelectSeq(Cat([i \in 1..Len(hs) |-> Members(hs[i])]), LAMBDA m : m # <<>>)
      ps == [i \in 1..Len(ms) |-> MemberPair(ms[i])]
  IN IF \E i \in 1..Len(ps) : ~ValidPair(ps[i]) THEN <<>>
     ELSE IF \E i, j \in 1..Len(ps) : i # j /\ ps[i][1] = ps[j][1] THEN <<>>
     ELSE IF Len(ps) > 32 THEN <<>> ELSE ps
RECURSIVE Header(_)
Header(ts) == IF ts = <<>> THEN <<>> ELSE ts[1][1] \o <<61>> \o ts[1][2] \o (IF Len(ts) = 1 THEN <<>> ELSE <<44>> \o Header(Tail(ts)))
=============================================================================
