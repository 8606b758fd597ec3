----------------------------- MODULE MCSpanConc -----------------------------
EXTENDS SpanConc
Kinds == {[k |-> "event", x |-> "e"], [k |-> "attr", x |-> "a"], [k |-> "end", x |-> "t"], [k |-> "rec", x |-> ""]}
MInit == CInit /\ op \in [Calls -> Kinds]
MSpec == MInit /\ [][CNext]_cvars /\ WF_cvars(CNext)
Done == <>(\A c \in Calls : pc[c] = "ret" \/ pc[c] = "new")
=============================================================================
