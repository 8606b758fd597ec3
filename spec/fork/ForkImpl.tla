------------------------------ MODULE ForkImpl ------------------------------
(* A batch processor whose process forks at any step: the child gets a copy   *)
(* of the memory (queue, lock state, pending flush request, batch in hand)    *)
(* but only the forking thread.  Judged by Fork; additionally no child may    *)
(* get stuck.  Clear, Locks and Request select what is renewed in the child.  *)
EXTENDS Fork
CONSTANTS Clear, Locks, Request
VARIABLES queue, lock, evlock, req, pc, batch, forked, ms, bad
vars == <<queue, lock, evlock, req, pc, batch, forked, ms, bad>>
P == {"P", "C"}
T == {"app", "worker", "flusher"}     \* of each process; the child's flusher is its app
Init == /\ queue = [p \in P |-> <<>>] /\ lock = [p \in P |-> ""] /\ evlock = [p \in P |-> ""] /\ req = [p \in P |-> FALSE]
        /\ pc = [x \in P \X T |-> IF x[1] = "C" THEN "none" ELSE IF x[2] = "app" THEN "emit1" ELSE IF x[2] = "worker" THEN "idle" ELSE "fl"]
        /\ batch = [p \in P |-> <<>>] /\ forked = FALSE /\ ms = SInit([kind |-> "span"]) /\ bad = {}
See(evs) == LET RECURSIVE go(_, _, _)
                go(s, b, i) == IF i > Len(evs) THEN <<s, b>> ELSE go(SApply(s, evs[i]), b \cup SFails(s, evs[i]), i + 1)
            IN LET r == go(ms, bad, 1) IN ms' = r[1] /\ bad' = r[2]
Quiet == UNCHANGED <<ms, bad>>
Go(p, t, l) == pc' = [pc EXCEPT ![<<p, t>>] = l]
Emit(p) == LET id == CASE p = "C" -> 3 [] pc[<<p, "app">>] = "emit1" -> 1 [] OTHER -> 2 IN
  /\ pc[<<p, "app">>] \in {"emit1", "emit2"}
  /\ queue' = [queue EXCEPT ![p] = Append(@, id)] /\ Go(p, "app", IF p = "P" THEN IF id = 1 THEN "emit2" ELSE "over" ELSE "fl")
  /\ See(<<[op |-> "e", p |-> p, id |-> id], [op |-> "er", p |-> p, id |-> id]>>) /\ UNCHANGED <<lock, evlock, req, batch, forked>>
(* flush: request under the lock, then wait for the worker's answer           *)
FlushT(p, t) ==
  \/ /\ pc[<<p, t>>] = "fl" /\ lock[p] = "" /\ lock' = [lock EXCEPT ![p] = t] /\ Go(p, t, "fl2") /\ See(<<[op |-> "f", p |-> p, t |-> t]>>) /\ UNCHANGED <<queue, evlock, req, batch, forked>>
  \/ /\ pc[<<p, t>>] = "fl2" /\ req' = [req EXCEPT ![p] = TRUE] /\ lock' = [lock EXCEPT ![p] = ""] /\ Go(p, t, "fl3") /\ Quiet /\ UNCHANGED <<queue, evlock, batch, forked>>
  \/ /\ pc[<<p, t>>] = "fl3" /\ evlock[p] = "" /\ evlock' = [evlock EXCEPT ![p] = t] /\ Go(p, t, "fl4") /\ Quiet /\ UNCHANGED <<queue, lock, req, batch, forked>>
  \/ /\ pc[<<p, t>>] = "fl4" /\ evlock' = [evlock EXCEPT ![p] = ""] /\ Go(p, t, "wait") /\ Quiet /\ UNCHANGED <<queue, lock, req, batch, forked>>
Worker(p) == LET t == "worker" IN
  \/ /\ pc[<<p, t>>] = "idle" /\ lock[p] = "" /\ lock' = [lock EXCEPT ![p] = t] /\ Go(p, t, "look") /\ Quiet /\ UNCHANGED <<queue, evlock, req, batch, forked>>
  \/ /\ pc[<<p, t>>] = "look" /\ lock' = [lock EXCEPT ![p] = ""] /\ Go(p, t, IF queue[p] # <<>> \/ req[p] THEN IF req[p] THEN "takeF" ELSE "take" ELSE "idle")
     /\ req' = [req EXCEPT ![p] = FALSE] /\ Quiet /\ UNCHANGED <<queue, evlock, batch, forked>>
  \/ /\ pc[<<p, t>>] \in {"take", "takeF"} /\ batch' = [batch EXCEPT ![p] = queue[p]] /\ queue' = [queue EXCEPT ![p] = <<>>]
     /\ Go(p, t, IF pc[<<p, t>>] = "take" THEN "export" ELSE "exportF") /\ Quiet /\ UNCHANGED <<lock, evlock, req, forked>>
  \/ /\ pc[<<p, t>>] \in {"export", "exportF"} /\ batch' = [batch EXCEPT ![p] = <<>>]
     /\ IF batch[p] # <<>> THEN See(<<[op |-> "X", p |-> p, ids |-> batch[p]]>>) ELSE Quiet
     /\ Go(p, t, IF pc[<<p, t>>] = "export" THEN "idle" ELSE "answer") /\ UNCHANGED <<queue, lock, evlock, req, forked>>
  \/ /\ pc[<<p, t>>] = "answer" /\ evlock[p] = "" /\ UNCHANGED <<queue, lock, evlock, req, batch, forked>>
     /\ LET w == {x \in T : pc[<<p, x>>] \in {"fl3", "fl4", "wait"}} IN
        /\ pc' = [x \in P \X T |-> IF x[1] = p /\ x[2] \in w THEN "over" ELSE IF x = <<p, t>> THEN "idle" ELSE pc[x]]
        /\ See([i \in 1..Cardinality(w) |-> [op |-> "flush", p |-> p, ok |-> TRUE, t |-> CHOOSE x \in w : Cardinality({y \in w : y = "app" \/ x # "app"}) = i]])
Forking == /\ ~forked /\ pc[<<"P", "app">>] \in {"emit2", "over"} /\ forked' = TRUE
           /\ queue' = [queue EXCEPT !["C"] = IF Clear THEN <<>> ELSE queue["P"]]
           /\ lock' = [lock EXCEPT !["C"] = IF Locks THEN "" ELSE lock["P"]]
           /\ req' = [req EXCEPT !["C"] = IF Request THEN FALSE ELSE req["P"]]
           /\ evlock' = [evlock EXCEPT !["C"] = IF Request THEN "" ELSE IF req["P"] THEN evlock["P"] ELSE ""]
           /\ batch' = [batch EXCEPT !["C"] = <<>>]
           /\ pc' = [x \in P \X T |-> IF x[1] = "C" THEN IF x[2] = "app" THEN "emit1" ELSE IF x[2] = "worker" THEN "idle" ELSE "none" ELSE pc[x]]
           /\ See(<<[op |-> "fork", p |-> "P", ch |-> "C"]>>)
Next == Forking \/ \E p \in P : Emit(p) \/ Worker(p) \/ \E t \in {"app", "flusher"} : FlushT(p, t)
Fair == WF_vars(Forking) /\ \A p \in P : WF_vars(Emit(p)) /\ SF_vars(Worker(p)) /\ \A t \in {"app", "flusher"} : SF_vars(FlushT(p, t))
Spec == Init /\ [][Next]_vars /\ Fair
Good == bad = {}
ChildDone == <>(pc[<<"C", "app">>] = "over") /\ <>(pc[<<"P", "flusher">>] = "over")
=============================================================================
