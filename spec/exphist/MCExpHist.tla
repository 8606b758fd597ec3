------------------------------ MODULE MCExpHist -----------------------------
(* The rescaling algorithm: buckets of the current interval and accumulated   *)
(* buckets of a cumulative stream, each a function index -> count at a scale, *)
(* reduced in scale whenever a side would span more than the allowed number   *)
(* of buckets.  Invariant: it always represents exactly the measurements.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, GenKit
RECURSIVE P2(_), Sum(_, _)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
MaxScale == 2
Unit(ix) == ix * 4 + (IF ix >= 0 THEN 2 ELSE 2)           \* index at scale 2 of 1.5 * 2^ix
MCfgs == {[size |-> n, rd |-> <<"C", "D">>, maxscale |-> m] : n \in {2, 3, 4}, m \in {2, 20}}
Empty == [scale |-> MaxScale, pos |-> <<>>, neg |-> <<>>, zero |-> 0]
MInit(c) == [c |-> c, cur |-> [r \in 1..2 |-> Empty], prev |-> Empty, log |-> [r \in 1..2 |-> <<>>], all |-> <<>>, sc |-> MaxScale, scs |-> <<MaxScale, MaxScale>>]
Span(f, xs) == LET D == DOMAIN f \cup xs IN
               IF D = {} THEN 0 ELSE (CHOOSE x \in D : \A y \in D : y <= x) - (CHOOSE x \in D : \A y \in D : y >= x) + 1
Sum(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x] + Sum(f, D \ {x})
Down(f, n) == [x \in {y \div P2(n) : y \in DOMAIN f} |-> Sum(f, {y \in DOMAIN f : y \div P2(n) = x})]
Shrink(b, n) == [b EXCEPT !.scale = @ - n, !.pos = Down(@, n), !.neg = Down(@, n)]
Add(f, x, k) == [y \in DOMAIN f \cup {x} |-> (IF y \in DOMAIN f THEN f[y] ELSE 0) + (IF y = x THEN k ELSE 0)]
RECURSIVE Put(_, _, _, _)
Put(b, sg, u, size) ==                                       \* u: index at MaxScale
  LET x == u \div P2(MaxScale - b.scale)
      f == IF sg > 0 THEN b.pos ELSE b.neg IN
  IF Span(f, {x}) > size THEN Put(Shrink(b, 1), sg, u, size)
  ELSE IF sg > 0 THEN [b EXCEPT !.pos = Add(@, x, 1)] ELSE [b EXCEPT !.neg = Add(@, x, 1)]
RECURSIVE Merge(_, _, _)
Merge(a, b, size) ==
  LET lo == IF a.scale < b.scale THEN a.scale ELSE b.scale
      x == Shrink(a, a.scale - lo)  y == Shrink(b, b.scale - lo) IN
  IF Span(x.pos, DOMAIN y.pos) > size \/ Span(x.neg, DOMAIN y.neg) > size THEN Merge(Shrink(x, 1), Shrink(y, 1), size)
  ELSE [scale |-> lo, zero |-> x.zero + y.zero,
        pos |-> [i \in DOMAIN x.pos \cup DOMAIN y.pos |-> (IF i \in DOMAIN x.pos THEN x.pos[i] ELSE 0) + (IF i \in DOMAIN y.pos THEN y.pos[i] ELSE 0)],
        neg |-> [i \in DOMAIN x.neg \cup DOMAIN y.neg |-> (IF i \in DOMAIN x.neg THEN x.neg[i] ELSE 0) + (IF i \in DOMAIN y.neg THEN y.neg[i] ELSE 0)]]
MApply(w, e) ==
  IF e.op = "rec"
  THEN [w EXCEPT !.cur = [r \in 1..2 |-> IF e.sg = 0 THEN [w.cur[r] EXCEPT !.zero = @ + 1] ELSE Put(w.cur[r], e.sg, Unit(e.ix), w.c.size)],
                 !.log = [r \in 1..2 |-> Append(w.log[r], <<e.sg, e.ix>>)], !.all = Append(@, <<e.sg, e.ix>>)]
  ELSE [w EXCEPT !.cur[e.r] = [Empty EXCEPT !.scale = w.cur[e.r].scale], !.log[e.r] = <<>>,      \* the mapping keeps its scale
                 !.prev = IF e.r = 1 THEN Merge(w.prev, w.cur[1], w.c.size) ELSE @]
MOps(w) == {[op |-> "rec", sg |-> 1, ix |-> i] : i \in {-5, -4, 0, 1, 6}} \cup {[op |-> "rec", sg |-> -1, ix |-> i] : i \in {0, 3}}
   \cup {[op |-> "rec", sg |-> 0, ix |-> 0]} \cup {[op |-> "col", r |-> r] : r \in 1..2}
Count(q, sg, lo, sc) == Cardinality({i \in 1..Len(q) : q[i][1] = sg /\ (sg = 0 \/ Unit(q[i][2]) \div P2(MaxScale - sc) = lo)})
Whole(b, q, size) ==
  /\ b.zero = Cardinality({i \in 1..Len(q) : q[i][1] = 0})
  /\ \A x \in DOMAIN b.pos : b.pos[x] = Count(q, 1, x, b.scale)
  /\ \A x \in DOMAIN b.neg : b.neg[x] = Count(q, -1, x, b.scale)
  /\ Sum(b.pos, DOMAIN b.pos) + Sum(b.neg, DOMAIN b.neg) + b.zero = Len(q)
  /\ Span(b.pos, {}) <= size /\ Span(b.neg, {}) <= size
Inv == /\ \A r \in 1..2 : Whole(ks.cur[r], ks.log[r], ks.c.size)
       /\ Whole(Merge(ks.prev, ks.cur[1], ks.c.size), ks.all, ks.c.size)
=============================================================================
