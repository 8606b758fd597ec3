-------------------------------- MODULE MCBag --------------------------------
(* Histories of contexts with baggage.                                        *)
EXTENDS BagHist, GenKit
MCfgs == {[x |-> 0]}
Ns == {<<97>>, <<233, 32>>}
Vs == {<<>>, <<32, 49>>, <<44, 61, 59, 43, 37, 128512>>}
AsList(m) == LET d == CHOOSE f \in [1..Cardinality(DOMAIN m) -> DOMAIN m] : \A i, j \in DOMAIN f : i # j => f[i] # f[j] IN [i \in DOMAIN d |-> <<d[i], m[d[i]]>>]
See(w, e) == [m |-> SApply(w.m, e), bad |-> w.bad \cup SFails(w.m, e), nc |-> IF e.op = "look" THEN w.nc ELSE e.c]
MInit(c) == [m |-> SInit(c), nc |-> 0, bad |-> {}]
MApply(w, op) == LET e == op @@ [c |-> w.nc + 1, raised |-> FALSE, h |-> IF op.op = "ext" THEN <<op.hdr>> ELSE <<>>, sent |-> IF op.op = "hop" THEN AsList(w.m[op.of]) ELSE <<>>]
                 IN See(w, e @@ [got |-> AsList(Result(w.m, e))])
Hdrs == {<<97, 61, 49, 32, 44, 9, 98, 61, 37, 99, 51, 37, 65, 57>>, <<97, 61, 59, 44, 97, 61, 50, 59, 112, 32, 61, 32, 49, 44, 61, 51>>, <<98, 61, 37, 122, 43, 44, 44, 99>>}
MOps(w) == [op : {"set"}, from : {w.nc, 0}, k : Ns, v : Vs] \cup [op : {"remove"}, from : {w.nc}, k : Ns] \cup [op : {"clear"}, from : {w.nc}]
           \cup [op : {"ext"}, from : {w.nc, 0}, hdr : Hdrs] \cup [op : {"hop"}, from : {w.nc}, of : 0..w.nc]
(* Writing the baggage of any context and parsing it gives it back.           *)
Inv == ks.bad = {} /\ \A c \in DOMAIN ks.m : Is(ks.m[c], Parse(Format(AsList(ks.m[c]))))
=============================================================================
