-------------------------------- MODULE Chars --------------------------------
(* Strings as sequences of code points, and the character classes of headers. *)
EXTENDS Integers, Sequences, FiniteSets
Lower == 97..122
Digit == 48..57
HexL == Digit \cup 97..102
Hex == HexL \cup 65..70
Ows == {32, 9}
All(s, C) == \A i \in 1..Len(s) : s[i] \in C
Zero(s) == \A i \in 1..Len(s) : s[i] = 48
Where(s, c) == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = c)
Split(s, c) == LET w == Where(s, c) IN
  [k \in 1..(Len(w) + 1) |-> SubSeq(s, IF k = 1 THEN 1 ELSE w[k - 1] + 1, IF k > Len(w) THEN Len(s) ELSE w[k] - 1)]
RECURSIVE First(_, _), Last(_, _)
First(s, i) == IF i > Len(s) THEN i ELSE IF s[i] \in Ows THEN First(s, i + 1) ELSE i
Last(s, i) == IF i = 0 THEN 0 ELSE IF s[i] \in Ows THEN Last(s, i - 1) ELSE i
LTrim(s) == SubSeq(s, First(s, 1), Len(s))
RTrim(s) == SubSeq(s, 1, Last(s, Len(s)))
Trim(s) == LTrim(RTrim(s))
(* List members: optional white space around the commas only.                 *)
Members(s) == LET p == Split(s, 44) IN
  [k \in 1..Len(p) |-> LET l == IF k > 1 THEN LTrim(p[k]) ELSE p[k] IN IF k < Len(p) THEN RTrim(l) ELSE l]
ToLower(s) == [i \in 1..Len(s) |-> IF s[i] \in 65..90 THEN s[i] + 32 ELSE s[i]]
Ten6(n) == [i \in 1..n |-> 48]
=============================================================================
