------------------------------ MODULE MCEntity ------------------------------
(* Short histories of get and create on a small alphabet of identities.       *)
EXTENDS Entity, GenKit
MCfgs == {[x |-> 0]}
MInit(c) == [m |-> SInit(c), next |-> 1, bad |-> {}]
Names == {<<97>>, <<65>>, <<97, 32>>, <<>>, <<97, 44>>, <<98, 47, 49>>}
Units == {<<>>, <<44>>, <<200>>}
MkEv(w, op) == LET e0 == [op |-> "mk", m |-> op.m, k |-> op.k, nm |-> op.nm, un |-> op.un, ds |-> op.ds, v |-> 1]
                   id == Get(w.m.inst, IKey(e0), w.next)
               IN [x \in DOMAIN e0 \cup {"id", "err", "pub"} |-> CASE x = "id" -> IF Valid(e0) THEN id ELSE 0 [] x = "err" -> IF Valid(e0) THEN "" ELSE "Exception"
                     [] x = "pub" -> <<Low(op.nm), op.un, op.ds, op.k>> [] OTHER -> e0[x]]
MApply(w, op) == LET e == MkEv(w, op)
                     m1 == SApply(w.m, e)
                     a == [op |-> "add", id |-> e.id, k |-> op.k, v |-> 1]
                 IN [m |-> IF e.id = 0 \/ Async(op.k) THEN m1 ELSE SApply(m1, a), next |-> IF e.id = w.next THEN w.next + 1 ELSE w.next, bad |-> w.bad \cup SFails(w.m, e)]
MOps(w) == {[op |-> "mk", m |-> m, k |-> k, nm |-> nm, un |-> un, ds |-> ds] : m \in 1..2, k \in {"counter", "ocounter", "hist"}, nm \in Names, un \in Units, ds \in {"", ","}}
Inv == /\ ks.bad = {}
       /\ \A a, b \in DOMAIN ks.m.inst : a = b \/ ks.m.inst[a] # ks.m.inst[b]
       /\ \A a \in DOMAIN ks.m.inst : ValidName(a[3]) /\ Low(a[3]) = a[3]
=============================================================================
