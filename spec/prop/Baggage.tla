------------------------------- MODULE Baggage -------------------------------
(* Baggage of contexts and its header (P03).                                  *)
EXTENDS Chars, TLC
KeyChar == {33, 42, 43, 45, 46, 124, 126} \cup 35..39 \cup Digit \cup 65..90 \cup 94..122
ValChar == {33} \cup 35..43 \cup 45..58 \cup 60..91 \cup 93..126
(* Percent decoding: '+' is a space, an escape not followed by two digits     *)
(* stands for itself, and runs of escapes are UTF-8.                          *)
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Esc(s, i) == i + 2 <= Len(s) /\ s[i] = 37 /\ s[i + 1] \in Hex /\ s[i + 2] \in Hex
Byte(s, i) == 16 * HexVal(s[i + 1]) + HexVal(s[i + 2])
(* The bytes after a leading byte b continue its character; bytes that do not  *)
(* are U+FFFD (how many of them the code counts is not pinned).               *)
Conts(s, i, b) == b >= 192 /\ \A k \in 1..(IF b < 224 THEN 1 ELSE IF b < 240 THEN 2 ELSE 3) :
                     Esc(s, i + 3 * k) /\ Byte(s, i + 3 * k) \in 128..191
RECURSIVE Dec(_, _)
Dec(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF ~Esc(s, i) THEN <<IF s[i] = 43 THEN 32 ELSE s[i]>> \o Dec(s, i + 1)
  ELSE LET b == Byte(s, i)  t(k) == Byte(s, i + 3 * k) - 128 IN
       IF b < 128 THEN <<b>> \o Dec(s, i + 3)
       ELSE IF ~Conts(s, i, b) THEN <<65533>> \o Dec(s, i + 3)
       ELSE IF b < 224 THEN <<(b - 192) * 64 + t(1)>> \o Dec(s, i + 6)
       ELSE IF b < 240 THEN <<(b - 224) * 4096 + t(1) * 64 + t(2)>> \o Dec(s, i + 9)
       ELSE <<(b - 240) * 262144 + t(1) * 4096 + t(2) * 64 + t(3)>> \o Dec(s, i + 12)
Unquote(s) == IF \A i \in 1..Len(s) : s[i] # 37 THEN [i \in 1..Len(s) |-> IF s[i] = 43 THEN 32 ELSE s[i]] ELSE Dec(s, 1)
IsKey(k) == k # <<>> /\ All(k, KeyChar)
IsProp(p) == LET w == Where(p, 61) IN
             IF w = <<>> THEN IsKey(Trim(p)) ELSE IsKey(Trim(SubSeq(p, 1, w[1] - 1))) /\ All(Trim(SubSeq(p, w[1] + 1, Len(p))), ValChar)
IsVal(v) == LET ps == Split(v, 59) IN All(ps[1], ValChar) /\ \A i \in 2..Len(ps) : IsProp(ps[i])
(* The well-formed members of a header as pairs of name and value, in order.  *)
MaxHeader == 8192
MaxMember == 4096
MaxMembers == 180
MemberOk(m) == LET w == Where(m, 61) IN Len(m) <= MaxMember /\ w # <<>> /\ IsKey(SubSeq(m, 1, w[1] - 1)) /\ IsVal(SubSeq(m, w[1] + 1, Len(m)))
Pair(m) == LET w == Where(m, 61) IN <<Unquote(SubSeq(m, 1, w[1] - 1)), Unquote(Trim(SubSeq(m, w[1] + 1, Len(m))))>>
Parse(h) == IF Len(h) > MaxHeader THEN <<>>
            ELSE LET ms == SelectSeq(Members(h), MemberOk) IN [i \in 1..(IF Len(ms) > MaxMembers THEN MaxMembers ELSE Len(ms)) |-> Pair(ms[i])]
(* One way of writing baggage; any that parses to the same entries will do.   *)
Utf8(c) == IF c < 128 THEN <<c>> ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
HexDig(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Enc(_), EscAll(_), Format(_)
EscAll(b) == IF b = <<>> THEN <<>> ELSE <<37, HexDig(b[1] \div 16), HexDig(b[1] % 16)>> \o EscAll(Tail(b))
Enc(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in Digit \cup Lower THEN <<s[1]>> ELSE EscAll(Utf8(s[1]))) \o Enc(Tail(s))
Format(l) == IF l = <<>> THEN <<>> ELSE Enc(l[1][1]) \o <<61>> \o Enc(l[1][2]) \o (IF Len(l) = 1 THEN <<>> ELSE <<44>> \o Format(Tail(l)))
None == [x \in {} |-> <<>>]
Set(m, k, v) == (k :> v) @@ m
Remove(m, k) == [x \in DOMAIN m \ {k} |-> m[x]]
RECURSIVE SetAll(_, _)
SetAll(m, ps) == IF ps = <<>> THEN m ELSE SetAll(Set(m, ps[1][1], ps[1][2]), Tail(ps))
Is(m, l) == Len(l) = Cardinality(DOMAIN m) /\ \A i \in 1..Len(l) : l[i][1] \in DOMAIN m /\ m[l[i][1]] = l[i][2]
=============================================================================
