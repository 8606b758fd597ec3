------------------------------ MODULE MCBatch -------------------------------
EXTENDS BatchImpl
CONSTANTS Cfgs
MCInit == IInit /\ cf \in Cfgs
MCSpec == MCInit /\ [][INext]_ivars
MCFair == MCSpec /\ Fair
MCAbs  == [][ANext]_avars
Sym    == {}
C_quick == {[mq |-> 2, mb |-> 2, uns |-> {}], [mq |-> 2, mb |-> 1, uns |-> {}]}
C_live  == {[mq |-> 1, mb |-> 1, uns |-> {}], [mq |-> 2, mb |-> 1, uns |-> {}]}
C_deep  == {[mq |-> m, mb |-> b, uns |-> {}] : m \in 1..3, b \in 1..2}
=============================================================================
