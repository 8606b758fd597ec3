----------------------------- MODULE ScrapeImpl -----------------------------
(* How collected metrics travel from a collection to the scrape that asked    *)
(* for it.  Shared: one queue, emptied by whoever scrapes (the original).     *)
(* Otherwise each thread keeps what it collected last.                        *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Scrapers, Flushers, Shared
VARIABLES pc, q, clock, from, shown
vars == <<pc, q, clock, from, shown>>
P == Scrapers \cup Flushers
Init == /\ pc = [p \in P |-> "idle"] /\ q = [p \in P |-> <<>>] /\ clock = 0 /\ from = [p \in P |-> 0] /\ shown = [p \in P |-> <<>>]
Slot(p) == IF Shared THEN CHOOSE x \in P : TRUE ELSE p
Start(p) == pc[p] = "idle" /\ pc' = [pc EXCEPT ![p] = "collect"] /\ from' = [from EXCEPT ![p] = clock + 1] /\ clock' = clock + 1 /\ shown' = [shown EXCEPT ![p] = <<>>] /\ UNCHANGED q
Collect(p) == pc[p] = "collect" /\ pc' = [pc EXCEPT ![p] = "give"] /\ clock' = clock + 1 /\ shown' = [shown EXCEPT ![p] = <<clock + 1>>] /\ UNCHANGED <<q, from>>
(* the collection hands over what it has (stamped)                            *)
Give(p) == /\ pc[p] = "give" /\ q' = [q EXCEPT ![Slot(p)] = IF Shared THEN Append(@, shown[p][1]) ELSE <<shown[p][1]>>]
           /\ pc' = [pc EXCEPT ![p] = IF p \in Flushers THEN "done" ELSE "take"] /\ shown' = [shown EXCEPT ![p] = <<>>] /\ UNCHANGED <<clock, from>>
Take(p) == /\ pc[p] = "take" /\ UNCHANGED <<clock, from>>
           /\ IF q[Slot(p)] = <<>> THEN pc' = [pc EXCEPT ![p] = "done"] /\ UNCHANGED <<q, shown>>
              ELSE q' = [q EXCEPT ![Slot(p)] = Tail(@)] /\ shown' = [shown EXCEPT ![p] = Append(@, Head(q[Slot(p)]))] /\ UNCHANGED pc
Next == \E p \in P : Start(p) \/ Collect(p) \/ Give(p) \/ Take(p)
Spec == Init /\ [][Next]_vars
(* a scrape shows one collection, made after the scrape began                 *)
Good == \A p \in Scrapers : pc[p] = "done" => Len(shown[p]) = 1 /\ shown[p][1] > from[p]
=============================================================================
