----------------------------- MODULE FanoutImpl -----------------------------
(* The copy-on-write list of processors: adders replace it under a lock,      *)
(* senders walk the one they read.  Composed with Fanout as monitor; without  *)
(* the lock (Locked = FALSE) TLC finds the registration that gets lost.       *)
EXTENDS Fanout
CONSTANTS Adders, Senders, Locked
VARIABLES list, lock, apc, tmp, spc, snap, k, bad
vars == <<list, lock, apc, tmp, spc, snap, k, bad>>
Init == /\ list = <<>> /\ lock = 0 /\ apc = [a \in Adders |-> "call"] /\ tmp = [a \in Adders |-> <<>>]
        /\ spc = [x \in Senders |-> "call"] /\ snap = [x \in Senders |-> <<>>]
        /\ k = SInit([kind |-> "seq", slack |-> 0]) /\ bad = {}
See(e) == k' = SApply(k, e) /\ bad' = bad \cup SFails(k, e)
ACall(a) == apc[a] = "call" /\ See([op |-> "addc", p |-> a]) /\ apc' = [apc EXCEPT ![a] = "lock"] /\ UNCHANGED <<list, lock, tmp, spc, snap>>
ALock(a) == apc[a] = "lock" /\ (Locked => lock = 0) /\ lock' = a /\ apc' = [apc EXCEPT ![a] = "read"] /\ UNCHANGED <<list, tmp, spc, snap, k, bad>>
ARead(a) == apc[a] = "read" /\ tmp' = [tmp EXCEPT ![a] = list] /\ apc' = [apc EXCEPT ![a] = "write"] /\ UNCHANGED <<list, lock, spc, snap, k, bad>>
AWrite(a) == apc[a] = "write" /\ list' = Append(tmp[a], a) /\ lock' = 0 /\ apc' = [apc EXCEPT ![a] = "ret"] /\ UNCHANGED <<tmp, spc, snap, k, bad>>
ARet(a) == apc[a] = "ret" /\ See([op |-> "addr", p |-> a]) /\ apc' = [apc EXCEPT ![a] = "done"] /\ UNCHANGED <<list, lock, tmp, spc, snap>>
SCall(x) == spc[x] = "call" /\ See([op |-> "evc", x |-> x, kind |-> "emit"]) /\ spc' = [spc EXCEPT ![x] = "read"] /\ UNCHANGED <<list, lock, apc, tmp, snap>>
SRead(x) == spc[x] = "read" /\ snap' = [snap EXCEPT ![x] = list] /\ spc' = [spc EXCEPT ![x] = "walk"] /\ UNCHANGED <<list, lock, apc, tmp, k, bad>>
SWalk(x) == spc[x] = "walk" /\ UNCHANGED <<list, lock, apc, tmp>> /\
            IF snap[x] = <<>> THEN See([op |-> "evr", x |-> x, err |-> ""]) /\ spc' = [spc EXCEPT ![x] = "done"] /\ UNCHANGED snap
            ELSE See([op |-> "got", x |-> x, p |-> Head(snap[x]), kind |-> "emit"]) /\ snap' = [snap EXCEPT ![x] = Tail(@)] /\ UNCHANGED spc
Next == \/ \E a \in Adders : ACall(a) \/ ALock(a) \/ ARead(a) \/ AWrite(a) \/ ARet(a)
        \/ \E x \in Senders : SCall(x) \/ SRead(x) \/ SWalk(x)
Spec == Init /\ [][Next]_vars
Inv == bad = {}
=============================================================================
