----------------------------- MODULE BatchTrace -----------------------------
(* Checks recorded executions of the real batch processors against BatchAbs.  *)
(* Observed: calls and returns of end/emit, flush and shutdown, begin and end *)
(* of export calls, the exporter's shutdown, quiescence.  Silent: Accept,     *)
(* Ignore and Take, which TLC searches for.  Times are microseconds; the      *)
(* exporter-free clock ec(t) leaves out the time spent in export calls.       *)
EXTENDS BatchAbs, TLC, Json, IOUtils, SequencesExt
T == JsonDeserialize(IOEnv.TRACES)
TItems   == UNION {ToSet(T[x].cfg.items) : x \in 1..Len(T)}
TFlushes == UNION {ToSet(T[x].cfg.flushes) : x \in 1..Len(T)}
TShuts   == UNION {ToSet(T[x].cfg.shuts) : x \in 1..Len(T)}

VARIABLES ti, l,
  busy,   \* total time spent in finished export calls
  xs,     \* begin of the export in progress
  at,     \* item -> exporter-free time (at latest) of its acceptance
  full,   \* exporter-free time since when a full batch waits, or -1
  ft,     \* flush -> time of the call
  fe,     \* flush -> exporter-free time of the call
  da,     \* time when the first shutdown began, or -1
  se      \* shutdown -> exporter-free time of the call
tvars == <<avars, ti, l, busy, xs, at, full, ft, fe, se, da>>
timev == <<busy, xs, at, full, ft, fe, se, da>>

Ev == T[ti].ev[l]
Cfg == T[ti].cfg
Ec(t) == t - busy - (IF exporting THEN t - xs ELSE 0)
Slack == Cfg.slack
Timed == Cfg.timed /\ ~down

TInit == /\ ti \in 1..Len(T) /\ l = 1 /\ TLCSet(ti, 1)
         /\ AInit
         /\ cf = [mq |-> Cfg.mq, mb |-> Cfg.mb, uns |-> ToSet(Cfg.uns)]
         /\ busy = 0 /\ xs = 0 /\ at = [i \in Items |-> 0] /\ full = -1
         /\ ft = [k \in Flushes |-> 0] /\ fe = ft /\ da = -1 /\ se = [n \in Shuts |-> 0]

Silent ==
  /\ l <= Len(T[ti].ev) /\ UNCHANGED <<ti, l, busy, xs, ft, fe, se, da>>
  /\ \/ \E i \in Items : /\ Accept(i)
                         /\ at' = [at EXCEPT ![i] = Ec(Ev.t)]
                         /\ full' = IF Len(q') >= MaxBatch /\ full = -1 THEN Ec(Ev.t) ELSE full
     \/ \E i \in Items : Ignore(i) /\ UNCHANGED <<at, full>>
     \/ /\ Take /\ Len(buf) < Len(Ev.nx) /\ Ev.nx[Len(buf) + 1] = Head(q)
        /\ full' = (IF Len(q') < MaxBatch THEN -1 ELSE full) /\ at' = at

(* The flush was certainly waiting before any shutdown began (virtual time   *)
(* advances only while every thread is blocked).                              *)
Waiting(k) == ~down \/ da - ft[k] > Slack
Late(i, t) == Ec(t) - at[i] > Cfg.delay + Slack

(* A batch belongs to the exporter once it was handed over: it stays as it was *)
Handed == LET xe == SelectSeq(SubSeq(T[ti].ev, 1, l - 1), LAMBDA x : x.e = "X") IN [j \in 1..Len(xe) |-> xe[j].b]

Observed ==
  /\ l <= Len(T[ti].ev) /\ l' = l + 1 /\ ti' = ti
  /\ CASE Ev.e = "C"  -> EndCall(Ev.i) /\ UNCHANGED timev
       [] Ev.e = "R"  -> EndRet(Ev.i) /\ UNCHANGED timev
       [] Ev.e = "X"  -> /\ ExportBegin /\ buf = Ev.b
                         /\ Timed => \A j \in 1..Len(buf) : ~Late(buf[j], Ev.t)
                         /\ Timed /\ full # -1 => Ec(Ev.t) - full <= Slack
                         /\ xs' = Ev.t /\ UNCHANGED <<busy, at, full, ft, fe, se, da>>
       [] Ev.e = "XR" -> ExportEnd /\ busy' = busy + (Ev.t - xs) /\ UNCHANGED <<xs, at, full, ft, fe, se, da>>
       [] Ev.e = "F"  -> FlushCall(Ev.k) /\ ft' = [ft EXCEPT ![Ev.k] = Ev.t] /\ fe' = [fe EXCEPT ![Ev.k] = Ec(Ev.t)] /\ UNCHANGED <<busy, xs, at, full, se, da>>
       [] Ev.e = "FR" -> /\ IF Ev.r = "true" THEN FlushTrue(Ev.k)
                            ELSE Ev.r = "false" /\ FlushFalse(Ev.k) /\ Ev.t - ft[Ev.k] >= Ev.tmo
                         /\ Cfg.prompt /\ Waiting(Ev.k) => Ec(Ev.t) - fe[Ev.k] <= Slack /\ (Ev.r = "true" => Settled(need[Ev.k]))
                         /\ UNCHANGED timev
       [] Ev.e = "S"  -> ShutCall(Ev.n) /\ se' = [se EXCEPT ![Ev.n] = Ec(Ev.t)] /\ da' = (IF down THEN da ELSE Ev.t) /\ UNCHANGED <<busy, xs, at, full, ft, fe>>
       [] Ev.e = "SR" -> /\ ShutRet(Ev.n)
                         /\ Cfg.prompt => Ec(Ev.t) - se[Ev.n] <= Slack
                         /\ UNCHANGED timev
       [] Ev.e = "XS" -> ExporterShut /\ UNCHANGED timev
       [] Ev.e = "Q"  -> /\ \A i \in Items : fate[i] \in {"queued", "taken", "sent"} => Timed /\ ~Late(i, Ev.t)
                         /\ UNCHANGED avars /\ UNCHANGED timev
       [] Ev.e = "KEPT" -> /\ Ev.b = Handed /\ UNCHANGED avars /\ UNCHANGED timev
       [] OTHER -> FALSE

TNext == (Silent \/ Observed) /\ UNCHANGED cf
TSpec == TInit /\ [][TNext]_tvars
(* Registers the furthest position of each trace; a finished trace is not     *)
(* explored further.                                                          *)
Reg == /\ (IF TLCGet(ti) < l THEN TLCSet(ti, l) ELSE TRUE)
       /\ TLCGet(ti) <= Len(T[ti].ev)
Report == PrintT("MAXL " \o ToJson([x \in 1..Len(T) |-> TLCGet(x)]))
=============================================================================
