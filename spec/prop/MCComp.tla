-------------------------------- MODULE MCComp -------------------------------
(* Small trees of propagators that write and set overlapping keys.            *)
EXTENDS Composite, GenKit
MCfgs == {[x |-> 0]}
Leaf(i, w, s) == [k |-> "leaf", id |-> i, w |-> w, f |-> [j \in 1..Len(w) |-> w[j][1]], s |-> s]
L == {Leaf(1, <<<<"a", 1>>>>, <<<<"u", 1>>>>), Leaf(2, <<<<"a", 2>>, <<"b", 2>>>>, <<>>), Leaf(3, <<>>, <<<<"v", 3>>, <<"u", 3>>>>), Leaf(4, <<<<"b", 4>>>>, <<<<"v", 4>>>>)}
C1 == {[k |-> "comp", of |-> q] : q \in {<<>>} \cup {<<x>> : x \in L} \cup {<<x, y>> : x, y \in L}}
Trees == C1 \cup {[k |-> "comp", of |-> <<x, y>>] : x \in C1, y \in L} \cup {[k |-> "comp", of |-> <<y, x>>] : x \in C1, y \in L}
MInit(c) == [bad |-> {}, carrier |-> <<>>]
MOps(w) == [op : {"inj", "ext"}, p : Trees]
MApply(w, op) ==
  LET ls == Leaves(op.p)  m == IF op.op = "inj" THEN Written(ls, <<>>) ELSE Stored(ls, <<>>)  ps(l) == IF op.op = "inj" THEN l.w ELSE l.s IN
  \* the union of what each writes, the last writer of a key winning
  [carrier |-> m, bad |-> IF /\ {m[i][1] : i \in 1..Len(m)} = UNION {{ps(ls[i])[j][1] : j \in 1..Len(ps(ls[i]))} : i \in 1..Len(ls)}
                             /\ \A i \in 1..Len(m) : \E a \in 1..Len(ls) : /\ m[i] \in AsSet(ps(ls[a]))
                                                                           /\ \A b \in a + 1..Len(ls) : \A j \in 1..Len(ps(ls[b])) : ps(ls[b])[j][1] # m[i][1]
                             /\ \A i, j \in 1..Len(m) : i # j => m[i][1] # m[j][1]
                          THEN {} ELSE {op}]
Inv == ks.bad = {}
=============================================================================
