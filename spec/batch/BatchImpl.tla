----------------------------- MODULE BatchImpl ------------------------------
(* The algorithm of BatchSpanProcessor / BatchLogRecordProcessor: a lock-free *)
(* append by producers, one worker that waits on a condition with a timeout,  *)
(* a single shared flush request, and a done flag.  One action per critical   *)
(* section (or per lock-free step).  TLC checks that it refines BatchAbs and, *)
(* under fairness, that flush and shutdown terminate.                         *)
EXTENDS BatchAbs

VARIABLES
  done,     \* the done/_shutdown flag
  ppc,      \* item -> "idle" | "check" | "append" | "ret" | "end"
  wpc,      \* worker: "top" | "waiting" | "export" | "run" | "tail" | "drain" | "dead"
  req,      \* flushes attached to the pending flush request ({} = none)
  mine,     \* flushes attached to the request the worker serves
  tailreq,  \* request picked up after the done flag was seen
  num,      \* items the served request still covers
  fpc,      \* flush -> "idle" | "check" | "wait" | "end"
  signaled  \* flushes whose event is set

ivars == <<avars, done, ppc, wpc, req, mine, tailreq, num, fpc, signaled>>

IInit ==
  /\ AInit /\ done = FALSE /\ ppc = [i \in Items |-> "idle"] /\ wpc = "top"
  /\ req = {} /\ mine = {} /\ tailreq = {} /\ num = 0
  /\ fpc = [k \in Flushes |-> "idle"] /\ signaled = {}

Wk == <<wpc, mine, tailreq, num>>
Fl == <<fl, need, fpc, req, signaled>>
Pr == <<st, ppc, must>>
Sh == <<down, closed, sh, done>>

P_call(i) == /\ ppc[i] = "idle" /\ ppc' = [ppc EXCEPT ![i] = "check"]
             /\ st' = [st EXCEPT ![i] = "open"]
             /\ UNCHANGED <<q, buf, exporting, fate, must, Wk, Fl, Sh>>

P_check(i) == /\ ppc[i] = "check"
              /\ IF done \/ i \in Unsampled
                 THEN fate' = [fate EXCEPT ![i] = "ignored"] /\ ppc' = [ppc EXCEPT ![i] = "ret"]
                 ELSE fate' = fate /\ ppc' = [ppc EXCEPT ![i] = "append"]
              /\ UNCHANGED <<q, buf, exporting, st, must, Wk, Fl, Sh>>

P_append(i) == /\ ppc[i] = "append" /\ ppc' = [ppc EXCEPT ![i] = "ret"]
               /\ LET lost == IF Len(q) = MaxQueue THEN {Head(q)} ELSE {} IN
                  /\ q' = Append(IF Len(q) = MaxQueue THEN Tail(q) ELSE q, i)
                  /\ fate' = [j \in Items |-> IF j = i THEN "queued" ELSE IF j \in lost THEN "dropped" ELSE fate[j]]
               /\ UNCHANGED <<buf, exporting, st, must, Wk, Fl, Sh>>

P_ret(i) == /\ ppc[i] = "ret" /\ ppc' = [ppc EXCEPT ![i] = "end"]
            /\ st' = [st EXCEPT ![i] = "ret"]
            /\ must' = IF down THEN must ELSE must \cup {i}
            /\ UNCHANGED <<q, buf, exporting, fate, Wk, Fl, Sh>>

(* Worker.  Taking the pending request and deciding to wait is one critical   *)
(* section; waking up (timeout or notification) is another.                   *)
W_top == /\ wpc = "top"
         /\ IF done THEN wpc' = "tail" /\ UNCHANGED <<mine, num, req>>
            ELSE /\ mine' = req /\ req' = {} /\ num' = Len(q)
                 /\ wpc' = IF Len(q) < MaxBatch /\ req = {} THEN "waiting" ELSE "export"
         /\ UNCHANGED <<q, buf, exporting, fate, tailreq, fl, need, fpc, signaled, Pr, Sh>>

W_wake == /\ wpc = "waiting"
          /\ req' = {} /\ num' = Len(q)
          /\ IF q = <<>>
             THEN wpc' = "top" /\ signaled' = signaled \cup req /\ mine' = {}
             ELSE wpc' = (IF done THEN "tail" ELSE "export") /\ mine' = req /\ signaled' = signaled
          /\ UNCHANGED <<q, buf, exporting, fate, tailreq, fl, need, fpc, Pr, Sh>>

Looping == wpc \in {"export", "drain"}

W_take == /\ Looping /\ ~exporting /\ Len(buf) < MaxBatch /\ q # <<>>
          /\ buf' = Append(buf, Head(q)) /\ q' = Tail(q)
          /\ fate' = [fate EXCEPT ![Head(q)] = "taken"]
          /\ UNCHANGED <<exporting, Wk, Fl, Pr, Sh>>

W_begin == /\ Looping /\ ~exporting /\ buf # <<>> /\ (Len(buf) = MaxBatch \/ q = <<>>)
           /\ exporting' = TRUE
           /\ fate' = [i \in Items |-> IF fate[i] = "taken" THEN "sent" ELSE fate[i]]
           /\ UNCHANGED <<q, buf, Wk, Fl, Pr, Sh>>

W_end == /\ Looping /\ exporting
         /\ exporting' = FALSE /\ buf' = <<>>
         /\ fate' = [i \in Items |-> IF fate[i] = "sent" THEN "handed" ELSE fate[i]]
         /\ num' = num - Len(buf)
         /\ IF wpc = "export" /\ (mine = {} \/ num - Len(buf) <= 0 \/ q = <<>>)
            THEN wpc' = "top" /\ signaled' = signaled \cup mine /\ mine' = {}
            ELSE UNCHANGED <<wpc, signaled, mine>>
         /\ UNCHANGED <<q, tailreq, fl, need, fpc, req, Pr, Sh>>

W_nothing == /\ wpc = "export" /\ ~exporting /\ buf = <<>> /\ q = <<>>   \* flush of an empty queue
             /\ wpc' = "top" /\ signaled' = signaled \cup mine /\ mine' = {}
             /\ UNCHANGED <<q, buf, exporting, fate, tailreq, num, fl, need, fpc, req, Pr, Sh>>

W_tail == /\ wpc = "tail" /\ wpc' = "drain" /\ tailreq' = req /\ req' = {}
          /\ UNCHANGED <<q, buf, exporting, fate, mine, num, fl, need, fpc, signaled, Pr, Sh>>

W_dead == /\ wpc = "drain" /\ ~exporting /\ buf = <<>> /\ q = <<>>
          /\ wpc' = "dead" /\ signaled' = signaled \cup mine \cup tailreq
          /\ UNCHANGED <<q, buf, exporting, fate, mine, tailreq, num, fl, need, fpc, req, Pr, Sh>>

F_call(k) == /\ fpc[k] = "idle" /\ fpc' = [fpc EXCEPT ![k] = "check"]
             /\ fl' = [fl EXCEPT ![k] = "wait"]
             /\ need' = [need EXCEPT ![k] = {i \in Items : st[i] = "ret"}]
             /\ UNCHANGED <<q, buf, exporting, fate, req, signaled, Wk, Pr, Sh>>
F_check(k) == /\ fpc[k] = "check"
              /\ IF done THEN fpc' = [fpc EXCEPT ![k] = "true"] /\ req' = req
                 ELSE fpc' = [fpc EXCEPT ![k] = "join"] /\ req' = req
              /\ UNCHANGED <<q, buf, exporting, fate, fl, need, signaled, Wk, Pr, Sh>>
F_join(k) == /\ fpc[k] = "join" /\ fpc' = [fpc EXCEPT ![k] = "wait"] /\ req' = req \cup {k}
             /\ UNCHANGED <<q, buf, exporting, fate, fl, need, signaled, Wk, Pr, Sh>>
F_true(k) == /\ fpc[k] = "true" \/ (fpc[k] = "wait" /\ k \in signaled)
             /\ fpc' = [fpc EXCEPT ![k] = "end"] /\ fl' = [fl EXCEPT ![k] = "done"]
             /\ UNCHANGED <<q, buf, exporting, fate, need, req, signaled, Wk, Pr, Sh>>
F_timeout(k) == /\ fpc[k] = "wait" /\ k \notin signaled
                /\ fpc' = [fpc EXCEPT ![k] = "end"] /\ fl' = [fl EXCEPT ![k] = "done"]
                /\ UNCHANGED <<q, buf, exporting, fate, need, req, signaled, Wk, Pr, Sh>>

S_call(n) == /\ sh[n] = "idle" /\ sh' = [sh EXCEPT ![n] = "wait"] /\ down' = TRUE
             /\ UNCHANGED <<q, buf, exporting, fate, closed, done, Wk, Fl, Pr>>
S_flag(n) == /\ sh[n] = "wait" /\ ~done /\ done' = TRUE
             /\ UNCHANGED <<q, buf, exporting, fate, down, closed, sh, Wk, Fl, Pr>>
S_close(n) == /\ sh[n] = "wait" /\ done /\ wpc = "dead" /\ ~closed /\ closed' = TRUE
              /\ UNCHANGED <<q, buf, exporting, fate, down, sh, done, Wk, Fl, Pr>>
S_ret(n) == /\ sh[n] = "wait" /\ closed /\ sh' = [sh EXCEPT ![n] = "done"]
            /\ UNCHANGED <<q, buf, exporting, fate, down, closed, done, Wk, Fl, Pr>>

Worker == W_top \/ W_wake \/ W_take \/ W_begin \/ W_end \/ W_nothing \/ W_tail \/ W_dead
IStep == \/ \E i \in Items : P_call(i) \/ P_check(i) \/ P_append(i) \/ P_ret(i)
         \/ Worker
         \/ \E k \in Flushes : F_call(k) \/ F_check(k) \/ F_join(k) \/ F_true(k) \/ F_timeout(k)
         \/ \E n \in Shuts : S_call(n) \/ S_flag(n) \/ S_close(n) \/ S_ret(n)

INext == IStep /\ UNCHANGED cf

ISpec == IInit /\ [][INext]_ivars
Wf(A) == WF_ivars(A /\ UNCHANGED cf)
Fair == /\ Wf(Worker)
        /\ \A i \in Items : Wf(P_check(i)) /\ Wf(P_append(i)) /\ Wf(P_ret(i))
        /\ \A k \in Flushes : Wf(F_check(k)) /\ Wf(F_join(k)) /\ Wf(F_true(k)) /\ Wf(F_timeout(k))
        /\ \A n \in Shuts : Wf(S_flag(n)) /\ Wf(S_close(n)) /\ Wf(S_ret(n))
IFairSpec == ISpec /\ Fair

Terminates == /\ \A k \in Flushes : (fl[k] = "wait") ~> (fl[k] = "done")
              /\ \A n \in Shuts : (sh[n] = "wait") ~> (sh[n] = "done")
              /\ \A i \in Items : (fate[i] = "queued") ~> (fate[i] \in {"handed", "dropped"} \/ (down /\ i \notin must))
=============================================================================
