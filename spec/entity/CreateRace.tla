----------------------------- MODULE CreateRace -----------------------------
(* The algorithm by which Meter.create_* finds or builds an instrument, step  *)
(* by step: threads asking for the same identity get one and the same object, *)
(* which is registered for collection once; a refused creation leaves no      *)
(* trace.  Locked and Trust select the variants found defective: looking up   *)
(* outside the lock, and trusting the registration flag of the base class.    *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Threads, Locked, Trust
VARIABLES pc, reg, already, obj, next, got, lock, async, valid
vars == <<pc, reg, already, obj, next, got, lock, async, valid>>
Init == /\ pc = [t \in Threads |-> "register"] /\ reg = FALSE /\ already = [t \in Threads |-> FALSE]
        /\ obj = 0 /\ next = 1 /\ got = [t \in Threads |-> 0] /\ lock = 0 /\ async = {} /\ valid \in [Threads -> BOOLEAN]
Register(t) == /\ pc[t] = "register" /\ already' = [already EXCEPT ![t] = reg] /\ reg' = TRUE
               /\ pc' = [pc EXCEPT ![t] = "enter"] /\ UNCHANGED <<obj, next, got, lock, async, valid>>
Enter(t) == /\ pc[t] = "enter" /\ (Locked => lock = 0) /\ lock' = IF Locked THEN t ELSE lock
            /\ pc' = [pc EXCEPT ![t] = "look"] /\ UNCHANGED <<reg, already, obj, next, got, async, valid>>
Look(t) == /\ pc[t] = "look" /\ UNCHANGED <<reg, already, next, async, valid, obj>>
           /\ IF (IF Trust THEN already[t] ELSE obj # 0)
              THEN /\ got' = [got EXCEPT ![t] = IF obj = 0 THEN -1 ELSE obj] /\ pc' = [pc EXCEPT ![t] = "done"] /\ lock' = IF lock = t THEN 0 ELSE lock
              ELSE /\ got' = got /\ pc' = [pc EXCEPT ![t] = "build"] /\ lock' = lock
Build(t) == /\ pc[t] = "build" /\ UNCHANGED <<reg, already, async, valid, obj>>
            /\ IF valid[t] THEN /\ got' = [got EXCEPT ![t] = next] /\ next' = next + 1 /\ pc' = [pc EXCEPT ![t] = "store"] /\ lock' = lock
                           ELSE /\ got' = [got EXCEPT ![t] = -2] /\ next' = next /\ pc' = [pc EXCEPT ![t] = "done"] /\ lock' = IF lock = t THEN 0 ELSE lock
Store(t) == /\ pc[t] = "store" /\ obj' = got[t] /\ lock' = (IF lock = t THEN 0 ELSE lock) /\ pc' = [pc EXCEPT ![t] = "listen"]
            /\ UNCHANGED <<reg, already, next, got, async, valid>>
Listen(t) == /\ pc[t] = "listen" /\ async' = async \cup {got[t]} /\ pc' = [pc EXCEPT ![t] = "done"] /\ UNCHANGED <<reg, already, obj, next, got, lock, valid>>
Next == \E t \in Threads : Register(t) \/ Enter(t) \/ Look(t) \/ Build(t) \/ Store(t) \/ Listen(t)
Spec == Init /\ [][Next]_vars
Done == \A t \in Threads : pc[t] = "done"
Inv == /\ \A t \in Threads : pc[t] = "done" => got[t] # -1 /\ (valid[t] => got[t] > 0)
       /\ \A t, u \in Threads : pc[t] = "done" /\ pc[u] = "done" /\ got[t] > 0 /\ got[u] > 0 => got[t] = got[u]
       /\ Cardinality(async) <= 1
NoStuck == Done \/ ENABLED Next
=============================================================================
