------------------------------ MODULE MCEncode ------------------------------
(* Batches over few resources and scopes: the groups partition the batch.     *)
EXTENDS Encode, GenKit
MCfgs == {[x |-> 0]}
MInit(c) == [b |-> <<>>]
R(r) == [attrs |-> <<<<"k", <<"s", r>>>>>>, schema |-> ""]
S(s) == [NoScope EXCEPT !.name = s]
MOps(w) == {[r |-> r, s |-> s] : r \in {"r1", "r2"}, s \in {"s1", "s2", ""}}
Body(n) == [body |-> <<"i", n>>, attrs |-> <<>>]
MApply(w, op) == [b |-> Append(w.b, [res |-> R(op.r), scope |-> S(op.s), item |-> Body(Len(w.b))])]
G == Groups("logs", ks.b)
All == UNION {UNION {Set(s.items) : s \in g.scopes} : g \in G}
RECURSIVE Sum(_)
Sum(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN Len(x[3].items) + Sum(X \ {x})
Inv == /\ All = {b.item : b \in Set(ks.b)}
       /\ Sum({<<g.res, s.scope, s>> : g \in G, s \in UNION {g.scopes : g \in G}} \cap UNION {{<<g.res, s.scope, s>> : s \in g.scopes} : g \in G}) = Len(ks.b)
       /\ Cardinality({g.res : g \in G}) = Cardinality(G)
       /\ \A g \in G : Cardinality({s.scope : s \in g.scopes}) = Cardinality(g.scopes)
       /\ \A g \in G : \A s \in g.scopes : \A i, j \in 1..Len(s.items) : i < j => s.items[i].body[2] < s.items[j].body[2]
=============================================================================
