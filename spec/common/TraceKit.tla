------------------------------ MODULE TraceKit ------------------------------
(* Checks a batch of recorded executions against a sequential specification   *)
(* given by three operators.  An event that the specification does not allow  *)
(* stops its trace with the names of the clauses it breaks.                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Init0(_), Fails(_, _), Apply(_, _)
VARIABLES kt, kl, ks     \* trace, position of the next event, specification state
KT == JsonDeserialize(IOEnv.TRACES)
kvars == <<kt, kl, ks>>
KInit == /\ kt \in 1..Len(KT) /\ kl = 1 /\ ks = Init0(KT[kt].cfg)
KNext == /\ kl >= 1 /\ kl <= Len(KT[kt].ev) /\ kt' = kt
         /\ LET e == KT[kt].ev[kl]
                f == Fails(ks, e)
            IN IF f = {}
               THEN /\ ks' = Apply(ks, e) /\ kl' = kl + 1
               ELSE /\ PrintT("BAD " \o ToJson([ti |-> kt, l |-> kl, clauses |-> f]))
                    /\ kl' = -kl /\ ks' = ks
KSpec == KInit /\ [][KNext]_kvars
(* The harness compares the number of states with the number of events, so no *)
(* trace can be cut short silently.                                           *)
=============================================================================
