------------------------------ MODULE SpanConc ------------------------------
(* A span shared by several threads (T04).  Every call takes effect atomically*)
(* between its begin and its return (Lin); the first end wins, its caller     *)
(* reports the end to every processor before it returns; whatever comes later *)
(* has no effect.                                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Calls, Procs
VARIABLES
  op,      \* call -> [k |-> kind, x |-> argument]
  pc,      \* call -> "new" | "open" | "lin" | "ret"
  res,     \* call -> result of an is_recording call
  phase,   \* "live" | "ended"
  winner,  \* the call that ended the span
  evs,     \* events so far
  attrs,   \* key -> value
  nm,      \* name
  stc,     \* status, last one set
  told     \* processors told of the end
cvars == <<op, pc, res, phase, winner, evs, attrs, nm, stc, told>>
NoCall == "none"
CInit == /\ pc = [c \in Calls |-> "new"] /\ res = [c \in Calls |-> TRUE]
         /\ phase = "live" /\ winner = NoCall /\ evs = <<>> /\ attrs = <<>> /\ nm = "n0" /\ stc = "UNSET" /\ told = {}
Set(f, k, v) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN v ELSE f[y]]
Begin(c) == /\ pc[c] = "new" /\ pc' = [pc EXCEPT ![c] = "open"]
            /\ UNCHANGED <<op, res, phase, winner, evs, attrs, nm, stc, told>>
Lin(c) ==
  /\ pc[c] = "open" /\ pc' = [pc EXCEPT ![c] = "lin"]
  /\ LET k == op[c].k  x == op[c].x  live == phase = "live" IN
     /\ evs'   = IF live /\ k = "event" THEN Append(evs, x) ELSE evs
     /\ attrs' = IF live /\ k = "attr" THEN Set(attrs, x, c) ELSE attrs
     /\ nm'    = IF live /\ k = "name" THEN x ELSE nm
     /\ stc'   = IF live /\ k = "status" THEN x ELSE stc
     /\ phase' = IF k = "end" THEN "ended" ELSE phase
     /\ winner' = IF live /\ k = "end" THEN c ELSE winner
     /\ res'   = IF k = "rec" THEN [res EXCEPT ![c] = live] ELSE res
  /\ UNCHANGED <<op, told>>
Tell(p) == /\ winner # NoCall /\ pc[winner] # "ret" /\ p \notin told
           /\ told' = told \cup {p} /\ UNCHANGED <<op, pc, res, phase, winner, evs, attrs, nm, stc>>
Return(c) == /\ pc[c] = "lin" /\ (c = winner => told = Procs)
             /\ pc' = [pc EXCEPT ![c] = "ret"]
             /\ UNCHANGED <<op, res, phase, winner, evs, attrs, nm, stc, told>>
CNext == \/ \E c \in Calls : Begin(c) \/ Lin(c) \/ Return(c)
         \/ \E p \in Procs : Tell(p)
(* Properties *)
ToldOnlyEnded == told # {} => phase = "ended"
EndComplete == \A c \in Calls : (op[c].k = "end" /\ pc[c] = "ret") => phase = "ended"
WinnerTold == \A c \in Calls : (c = winner /\ pc[c] = "ret") => told = Procs
Frozen == [][phase = "ended" => <<evs, attrs, nm, stc>>' = <<evs, attrs, nm, stc>>]_cvars
OneWinner == [][winner # NoCall => winner' = winner]_cvars
Kept == phase = "live" => \A c \in Calls : (pc[c] = "ret" /\ op[c].k = "event") => \E i \in 1..Len(evs) : evs[i] = op[c].x
=============================================================================
