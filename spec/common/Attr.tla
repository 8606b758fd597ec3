-------------------------------- MODULE Attr --------------------------------
(* Attribute values and bounded attribute maps (property R02 and part of T05).*)
(* A value is a sequence of tagged strings: <<"i:5">> is a scalar and         *)
(* <<"L", "s:a", "n:">> a sequence with a hole.  Tags: s: string, i: integer, *)
(* f: float, b: boolean, y: decodable bytes, Y: undecodable bytes, n: none,   *)
(* O: anything else.  A key is a tagged string too.                           *)
EXTENDS Integers, Sequences, FiniteSets
Tag(x) == IF Len(x) < 2 THEN x ELSE SubSeq(x, 1, 2)
Body(x) == SubSeq(x, 3, Len(x))
Trunc(x, n) == IF n = -1 \/ Len(x) <= n THEN x ELSE SubSeq(x, 1, n)
CleanEl(x, n) == IF Tag(x) \in {"s:", "y:"} THEN "s:" \o Trunc(Body(x), n)
                 ELSE IF Tag(x) = "Y:" THEN "n:" ELSE x
Invalid == <<>>
CleanVal(val, n) ==
  IF val[1] # "L"
  THEN LET c == CleanEl(val[1], n) IN IF Tag(c) \in {"n:", "O:"} THEN Invalid ELSE <<c>>
  ELSE LET el == [i \in 1..(Len(val) - 1) |-> CleanEl(val[i + 1], n)]
           types == {Tag(el[i]) : i \in DOMAIN el} \ {"n:"}
       IN IF "O:" \in types \/ Cardinality(types) > 1 THEN Invalid ELSE <<"L">> \o el
ValidKey(k) == Tag(k) = "s:" /\ Len(k) > 2
(* A bounded map: o is the sequence of <<key, value>> from least to most      *)
(* recently set, d counts evictions, n the additions of keys not present.     *)
NewMap == [o |-> <<>>, d |-> 0, n |-> 0]
Without(o, k) == SelectSeq(o, LAMBDA p : p[1] # k)
Has(o, k) == \E i \in 1..Len(o) : o[i][1] = k
Put(m, k, val, max, n) ==
  IF max = 0 THEN [m EXCEPT !.d = @ + 1, !.n = @ + 1]
  ELSE LET c == IF ValidKey(k) THEN CleanVal(val, n) ELSE Invalid IN
       IF c = Invalid THEN m
       ELSE IF Has(m.o, k) THEN [m EXCEPT !.o = Append(Without(@, k), <<k, c>>)]
       ELSE IF max # -1 /\ Len(m.o) = max
            THEN [o |-> Append(Tail(m.o), <<k, c>>), d |-> m.d + 1, n |-> m.n + 1]
            ELSE [m EXCEPT !.o = Append(@, <<k, c>>), !.n = @ + 1]
RECURSIVE PutAll(_, _, _, _)
PutAll(m, kvs, max, n) == IF kvs = <<>> THEN m
                          ELSE PutAll(Put(m, kvs[1][1], kvs[1][2], max, n), Tail(kvs), max, n)
(* Observed map: a sequence of <<key, value>> in any order.                   *)
SameMap(o, obs) == Len(o) = Len(obs) /\ {<<o[i][1], o[i][2]>> : i \in 1..Len(o)} = {<<obs[i][1], obs[i][2]>> : i \in 1..Len(obs)}
MapOk(m, max) == /\ max # -1 => Len(m.o) <= max
                 /\ Len(m.o) + m.d = m.n
                 /\ \A i, j \in 1..Len(m.o) : i # j => m.o[i][1] # m.o[j][1]
LenOk(m, n) == n # -1 => \A i \in 1..Len(m.o) : \A j \in 1..Len(m.o[i][2]) : Tag(m.o[i][2][j]) = "s:" => Len(m.o[i][2][j]) <= n + 2
=============================================================================
