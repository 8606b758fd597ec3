------------------------------- MODULE GenKit -------------------------------
(* Explores a sequential specification over an operation alphabet: TLC checks *)
(* the invariants and, with Emit, prints each operation sequence of length    *)
(* Depth so that it can be replayed into the real code.                       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Cfgs, Init0(_), Ops(_), Apply(_, _), Depth, Emit
VARIABLES kc, kh, ks     \* configuration, operations so far, specification state
gvars == <<kc, kh, ks>>
GInit == kc \in Cfgs /\ kh = <<>> /\ ks = Init0(kc)
GNext == /\ Len(kh) < Depth /\ kc' = kc
         /\ \E op \in Ops(ks) :
              /\ kh' = Append(kh, op) /\ ks' = Apply(ks, op)
              /\ IF Emit /\ Len(kh) + 1 = Depth
                 THEN PrintT("GEN " \o ToJson([cfg |-> kc, ops |-> kh'])) ELSE TRUE
GSpec == GInit /\ [][GNext]_gvars
GView == <<kc, ks, Len(kh)>>
=============================================================================
