------------------------------ MODULE BatchAbs ------------------------------
(* What a user may observe of a batching processor (spans or log records):    *)
(* items are ended/emitted by application threads, wait in a bounded          *)
(* drop-oldest queue, and are handed to the exporter in batches by a worker;  *)
(* flush and shutdown give completeness promises.  The invariants below are   *)
(* properties T01, T02 and L01.  BatchImpl refines this module; BatchTrace    *)
(* checks executions of the real code against it.                             *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Items, Flushes, Shuts

VARIABLES
  cf,         \* configuration [mq |-> max queue, mb |-> max batch, uns |-> items not sampled]
  q,          \* accepted items that wait, oldest first
  buf,        \* items the worker has taken for the current export, in order
  exporting,  \* an export call is in progress
  st,         \* item -> "new" | "open" | "ret"          (the end/emit call)
  fate,       \* item -> "none" | "queued" | "taken" | "sent" | "handed" | "dropped" | "ignored"
  down,       \* some shutdown call has begun
  closed,     \* the exporter was shut down
  must,       \* items whose end returned before any shutdown began
  fl,         \* flush -> "idle" | "wait" | "done"
  need,       \* flush -> items whose end returned before the flush call
  sh          \* shutdown call -> "idle" | "wait" | "done"

MaxQueue  == cf.mq
MaxBatch  == cf.mb
Unsampled == cf.uns

avars == <<cf, q, buf, exporting, st, fate, down, closed, must, fl, need, sh>>

AInit ==
  /\ q = <<>> /\ buf = <<>> /\ exporting = FALSE
  /\ st = [i \in Items |-> "new"]
  /\ fate = [i \in Items |-> "none"]
  /\ down = FALSE /\ closed = FALSE /\ must = {}
  /\ fl = [k \in Flushes |-> "idle"]
  /\ need = [k \in Flushes |-> {}]
  /\ sh = [k \in Shuts |-> "idle"]

EndCall(i) ==
  /\ st[i] = "new"
  /\ st' = [st EXCEPT ![i] = "open"]
  /\ UNCHANGED <<q, buf, exporting, fate, down, closed, must, fl, need, sh>>

(* The item enters the queue; a full queue loses exactly its oldest item.     *)
Accept(i) ==
  /\ st[i] = "open" /\ fate[i] = "none" /\ i \notin Unsampled
  /\ IF Len(q) < MaxQueue
     THEN /\ q' = Append(q, i)
          /\ fate' = [fate EXCEPT ![i] = "queued"]
     ELSE /\ q' = Append(Tail(q), i)
          /\ fate' = [fate EXCEPT ![i] = "queued", ![Head(q)] = "dropped"]
  /\ UNCHANGED <<buf, exporting, st, down, closed, must, fl, need, sh>>

(* Not sampled, or ended when shutdown had already begun.                     *)
Ignore(i) ==
  /\ st[i] = "open" /\ fate[i] = "none"
  /\ i \in Unsampled \/ down
  /\ fate' = [fate EXCEPT ![i] = "ignored"]
  /\ UNCHANGED <<q, buf, exporting, st, down, closed, must, fl, need, sh>>

EndRet(i) ==
  /\ st[i] = "open" /\ fate[i] # "none"
  /\ st' = [st EXCEPT ![i] = "ret"]
  /\ must' = IF down THEN must ELSE must \cup {i}
  /\ UNCHANGED <<q, buf, exporting, fate, down, closed, fl, need, sh>>

Take ==
  /\ ~exporting /\ q # <<>> /\ Len(buf) < MaxBatch
  /\ buf' = Append(buf, Head(q)) /\ q' = Tail(q)
  /\ fate' = [fate EXCEPT ![Head(q)] = "taken"]
  /\ UNCHANGED <<exporting, st, down, closed, must, fl, need, sh>>

ExportBegin ==
  /\ ~exporting /\ buf # <<>> /\ ~closed
  /\ exporting' = TRUE
  /\ fate' = [i \in Items |-> IF fate[i] = "taken" THEN "sent" ELSE fate[i]]
  /\ UNCHANGED <<q, buf, st, down, closed, must, fl, need, sh>>

(* Success, failure and an exception of the exporter look the same from here. *)
ExportEnd ==
  /\ exporting
  /\ exporting' = FALSE /\ buf' = <<>>
  /\ fate' = [i \in Items |-> IF fate[i] = "sent" THEN "handed" ELSE fate[i]]
  /\ UNCHANGED <<q, st, down, closed, must, fl, need, sh>>

FlushCall(k) ==
  /\ fl[k] = "idle"
  /\ fl' = [fl EXCEPT ![k] = "wait"]
  /\ need' = [need EXCEPT ![k] = {i \in Items : st[i] = "ret"}]
  /\ UNCHANGED <<q, buf, exporting, st, fate, down, closed, must, sh>>

Settled(S) == \A i \in S : fate[i] \in {"handed", "dropped", "ignored"}

FlushTrue(k) ==
  /\ fl[k] = "wait"
  /\ down \/ Settled(need[k])
  /\ fl' = [fl EXCEPT ![k] = "done"]
  /\ UNCHANGED <<q, buf, exporting, st, fate, down, closed, must, need, sh>>

FlushFalse(k) ==            \* only its timeout makes a flush fail (BatchTrace adds the clock)
  /\ fl[k] = "wait"
  /\ fl' = [fl EXCEPT ![k] = "done"]
  /\ UNCHANGED <<q, buf, exporting, st, fate, down, closed, must, need, sh>>

ShutCall(n) ==
  /\ sh[n] = "idle"
  /\ sh' = [sh EXCEPT ![n] = "wait"] /\ down' = TRUE
  /\ UNCHANGED <<q, buf, exporting, st, fate, closed, must, fl, need>>

ExporterShut ==
  /\ down /\ ~exporting /\ Settled(must)
  /\ closed' = TRUE
  /\ UNCHANGED <<q, buf, exporting, st, fate, down, must, fl, need, sh>>

ShutRet(n) ==
  /\ sh[n] = "wait" /\ closed /\ ~exporting /\ Settled(must)
  /\ sh' = [sh EXCEPT ![n] = "done"]
  /\ UNCHANGED <<q, buf, exporting, st, fate, down, closed, must, fl, need>>

AStep ==
  \/ \E i \in Items : EndCall(i) \/ Accept(i) \/ Ignore(i) \/ EndRet(i)
  \/ Take \/ ExportBegin \/ ExportEnd
  \/ \E k \in Flushes : FlushCall(k) \/ FlushTrue(k) \/ FlushFalse(k)
  \/ \E n \in Shuts : ShutCall(n) \/ ShutRet(n)
  \/ ExporterShut

ANext == AStep /\ UNCHANGED cf

ASpec == AInit /\ [][ANext]_avars

-----------------------------------------------------------------------------
InSeq(s) == {s[j] : j \in 1..Len(s)}

QueueBound   == Len(q) <= MaxQueue
BatchBound   == Len(buf) <= MaxBatch
NoDuplicate  == /\ Cardinality(InSeq(q)) = Len(q) /\ Cardinality(InSeq(buf)) = Len(buf)
                /\ InSeq(q) \cap InSeq(buf) = {}
(* Conservation: an accepted item is in exactly one place.                    *)
Conserved    == \A i \in Items :
                  /\ (fate[i] = "queued") = (i \in InSeq(q))
                  /\ (fate[i] \in {"taken", "sent"}) = (i \in InSeq(buf))
UnsampledOut == \A i \in Unsampled : fate[i] \in {"none", "ignored"}
DropOnlyFull == [][\A i \in Items : fate[i] # "dropped" /\ fate'[i] = "dropped"
                      => Len(q) = MaxQueue /\ i = Head(q)]_avars
ShutPromise  == (\E n \in Shuts : sh[n] = "done") => Settled(must) /\ closed
ClosedQuiet  == [][closed => ~(~exporting /\ exporting')]_avars
=============================================================================
