---------------------------- MODULE PeriodicImpl ----------------------------
(* The reader's algorithm with its locks, composed with Periodic: every       *)
(* visible step is judged by it.  Time stands still, so the time bounds are   *)
(* not exercised here.  Serial = FALSE and Guard = FALSE give the variants    *)
(* found defective (flush past an export under way; export after shutdown).   *)
EXTENDS Periodic
CONSTANTS Recs, Flushers, Stoppers, Serial, Guard, Ticks
VARIABLES pc, data, held, clock, xlock, flag, once, woken, ticks, k, bad
vars == <<pc, data, held, clock, xlock, flag, once, woken, ticks, k, bad>>
Cfg == [iv |-> 1000000, to |-> 1000000, slack |-> 1000]
Procs == Recs \cup Flushers \cup Stoppers \cup {"ticker"}
Init == /\ pc = [p \in Procs |-> "go"] /\ data = {} /\ held = [p \in Procs |-> <<>>] /\ clock = "" /\ xlock = "" /\ flag = FALSE
        /\ once = FALSE /\ woken = FALSE /\ ticks = 0 /\ bad = {}
        /\ k = [SInit(Cfg) EXCEPT !.made = TRUE]
See(evs) == LET RECURSIVE go(_, _, _)
                go(s, b, i) == IF i > Len(evs) THEN <<s, b>> ELSE LET e == evs[i] IN go(SApply(s, e), b \cup (SFails(s, e) \ {"collects-too-early"}), i + 1)
            IN LET r == go(k, bad, 1) IN k' = r[1] /\ bad' = r[2]
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
Num(p) == CASE p = "r1" -> 1 [] p = "r2" -> 2 [] p = "r3" -> 3
Same(v) == UNCHANGED v
Rec(p) ==
  \/ /\ pc[p] = "go" /\ Go(p, "add") /\ See(<<[op |-> "R", id |-> Num(p), t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
  \/ /\ pc[p] = "add" /\ data' = data \cup {Num(p)} /\ Go(p, "ret") /\ Same(<<held, clock, xlock, flag, once, woken, ticks, k, bad>>)
  \/ /\ pc[p] = "ret" /\ Go(p, "done") /\ See(<<[op |-> "RR", id |-> Num(p), t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
(* collect and export, used by the ticker and by flushes; after: next label   *)
Lock(p) == /\ pc[p] = "lock" /\ (Serial => clock = "") /\ clock' = IF Serial THEN p ELSE clock
           /\ Go(p, "collect") /\ Same(<<data, held, xlock, flag, once, woken, ticks, k, bad>>)
Collect(p) == /\ pc[p] = "collect" /\ held' = [held EXCEPT ![p] = <<data>>] /\ data' = {} /\ Go(p, "receive")
              /\ See(<<[op |-> "T", by |-> p, t |-> 0]>>) /\ Same(<<clock, xlock, flag, once, woken, ticks>>)
Receive(p) == /\ pc[p] = "receive" /\ xlock = "" /\ xlock' = p /\ Go(p, "check") /\ Same(<<data, held, clock, flag, once, woken, ticks, k, bad>>)
Ids(S) == LET RECURSIVE q(_)
              q(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE x \in X : TRUE IN <<x>> \o q(X \ {x})
          IN q(S)
Check(p) == /\ pc[p] = "check" /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
            /\ IF Guard /\ flag THEN Go(p, "unlock") /\ Same(<<k, bad>>)
               ELSE Go(p, "exporting") /\ See(<<[op |-> "X", by |-> p, ids |-> Ids(held[p][1]), x |-> 0, t |-> 0]>>)
Exported(p) == /\ pc[p] = "exporting" /\ Go(p, "unlock") /\ See(<<[op |-> "XR", by |-> p, x |-> 0, t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
Unlock(p) == /\ pc[p] = "unlock" /\ xlock' = "" /\ clock' = (IF Serial THEN "" ELSE clock) /\ held' = [held EXCEPT ![p] = <<>>]
             /\ Go(p, IF p \in Flushers THEN "ret" ELSE IF woken /\ ticks < 0 THEN "done" ELSE "go") /\ Same(<<data, flag, once, woken, ticks, k, bad>>)
Ticker == LET p == "ticker" IN
  /\ pc[p] = "go"
  /\ \/ ~woken /\ ticks < Ticks /\ ticks' = ticks + 1 /\ Go(p, "lock") /\ Same(<<data, held, clock, xlock, flag, once, woken, k, bad>>)
     \/ woken /\ ticks >= 0 /\ ticks' = -1 /\ Go(p, "lock") /\ Same(<<data, held, clock, xlock, flag, once, woken, k, bad>>)
Flush(p) ==
  \/ /\ pc[p] = "go" /\ Go(p, "lock") /\ See(<<[op |-> "F", f |-> p, to |-> 10, t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
  \/ /\ pc[p] = "ret" /\ Go(p, "done") /\ See(<<[op |-> "FR", f |-> p, err |-> "", t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
Stop(p) ==
  \/ /\ pc[p] = "go" /\ Go(p, "once") /\ See(<<[op |-> "S", f |-> p, to |-> 1000000, t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
  \/ /\ pc[p] = "once" /\ once' = TRUE /\ Go(p, IF once THEN "ret" ELSE "wake") /\ Same(<<data, held, clock, xlock, flag, woken, ticks, k, bad>>)
  \/ /\ pc[p] = "wake" /\ woken' = TRUE /\ Go(p, "join") /\ Same(<<data, held, clock, xlock, flag, once, ticks, k, bad>>)
  \/ /\ pc[p] = "join" /\ pc["ticker"] = "done" /\ Go(p, "flag") /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks, k, bad>>)
  \/ /\ pc[p] = "flag" /\ (Guard => xlock = "") /\ flag' = TRUE /\ Go(p, "xs") /\ Same(<<data, held, clock, xlock, once, woken, ticks, k, bad>>)
  \/ /\ pc[p] = "xs" /\ Go(p, "xsr") /\ See(<<[op |-> "XS", t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
  \/ /\ pc[p] = "xsr" /\ Go(p, "ret") /\ See(<<[op |-> "XSR", t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
  \/ /\ pc[p] = "ret" /\ Go(p, "done") /\ See(<<[op |-> "SR", f |-> p, err |-> "", t |-> 0]>>) /\ Same(<<data, held, clock, xlock, flag, once, woken, ticks>>)
Common(p) == Lock(p) \/ Collect(p) \/ Receive(p) \/ Check(p) \/ Exported(p) \/ Unlock(p)
Next == \/ \E p \in Recs : Rec(p)
        \/ \E p \in Flushers : Flush(p) \/ Common(p)
        \/ \E p \in Stoppers : Stop(p)
        \/ Ticker \/ Common("ticker")
Spec == Init /\ [][Next]_vars
Good == bad = {}
NoDeadlock == (\A p \in Procs \ {"ticker"} : pc[p] = "done") \/ ENABLED Next
=============================================================================
