------------------------------- MODULE Scrape -------------------------------
(* Prometheus exposition (E04): what a scrape has to show.                    *)
(* cfg: inst  sequence of [k kind, nm, un, ds, bd bounds (histograms)]        *)
(*      target whether target_info is wanted, res resource attributes         *)
(*      conc  recordings, scrapes and flushes overlap                         *)
(* Attribute sets are sequences of <<key, <<type, text>>>> sorted by key.     *)
(* Bounds on a value follow from the recordings that must or may be included; *)
(* they coincide when nothing overlaps (overlapping amounts are not negative).*)
(* Series that read the same in Prometheus although they differ (distinct     *)
(* instruments or attribute sets, same text) are left out of the comparison.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Set(q) == {q[i] : i \in 1..Len(q)}
Ins(f, k, v) == (k :> v) @@ f
(* -- names ------------------------------------------------------------------*)
Lower == "abcdefghijklmnopqrstuvwxyz"  Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"  Digit == "0123456789"
Has(chars, x) == \E i \in 1..Len(chars) : SubSeq(chars, i, i) = x
Keep(x, colon) == Has(Lower, x) \/ Has(Upper, x) \/ Has(Digit, x) \/ (colon /\ x = ":")
RECURSIVE San(_, _, _)     \* runs of other characters become one underscore
San(n, colon, under) ==
  IF n = "" THEN "" ELSE LET x == SubSeq(n, 1, 1)  t == SubSeq(n, 2, Len(n)) IN
  IF Keep(x, colon) THEN x \o San(t, colon, FALSE) ELSE (IF under THEN "" ELSE "_") \o San(t, colon, TRUE)
Lead(n) == IF n # "" /\ Has(Digit, SubSeq(n, 1, 1)) THEN "_" \o SubSeq(n, 2, Len(n)) ELSE n
Name(n) == San(Lead(n), TRUE, FALSE)
Label(n) == IF n = "" THEN "_" ELSE San(Lead(n), FALSE, FALSE)
Valid(n, colon) == n # "" /\ ~Has(Digit, SubSeq(n, 1, 1)) /\ \A i \in 1..Len(n) : SubSeq(n, i, i) = "_" \/ Keep(SubSeq(n, i, i), colon)
Ends(n, t) == Len(n) >= Len(t) /\ SubSeq(n, Len(n) - Len(t) + 1, Len(n)) = t
(* -- units ------------------------------------------------------------------*)
Units == ("d" :> "days") @@ ("h" :> "hours") @@ ("min" :> "minutes") @@ ("s" :> "seconds") @@ ("ms" :> "milliseconds") @@ ("us" :> "microseconds") @@ ("ns" :> "nanoseconds")
      @@ ("By" :> "bytes") @@ ("KiBy" :> "kibibytes") @@ ("MiBy" :> "mebibytes") @@ ("GiBy" :> "gibibytes") @@ ("TiBy" :> "tibibytes")
      @@ ("KBy" :> "kilobytes") @@ ("MBy" :> "megabytes") @@ ("GBy" :> "gigabytes") @@ ("TBy" :> "terabytes")
      @@ ("m" :> "meters") @@ ("V" :> "volts") @@ ("A" :> "amperes") @@ ("J" :> "joules") @@ ("W" :> "watts") @@ ("g" :> "grams") @@ ("Cel" :> "celsius") @@ ("Hz" :> "hertz") @@ ("1" :> "") @@ ("%" :> "percent")
Per == ("s" :> "second") @@ ("m" :> "minute") @@ ("h" :> "hour") @@ ("d" :> "day") @@ ("w" :> "week") @@ ("mo" :> "month") @@ ("y" :> "year")
Get(f, k) == IF k \in DOMAIN f THEN f[k] ELSE k
First(n, x) == IF \E i \in 1..Len(n) : SubSeq(n, i, i) = x THEN CHOOSE i \in 1..Len(n) : SubSeq(n, i, i) = x /\ \A j \in 1..(i - 1) : SubSeq(n, j, j) # x ELSE 0
Last(n, x) == IF \E i \in 1..Len(n) : SubSeq(n, i, i) = x THEN CHOOSE i \in 1..Len(n) : SubSeq(n, i, i) = x /\ \A j \in (i + 1)..Len(n) : SubSeq(n, j, j) # x ELSE 0
Bare(u) == LET a == First(u, "{")  b == Last(u, "}") IN IF a > 0 /\ b > a THEN SubSeq(u, 1, a - 1) \o SubSeq(u, b + 1, Len(u)) ELSE u
RECURSIVE Strip(_)
Strip(u) == IF u = "" THEN "" ELSE IF SubSeq(u, 1, 1) = "_" THEN Strip(SubSeq(u, 2, Len(u))) ELSE IF SubSeq(u, Len(u), Len(u)) = "_" THEN Strip(SubSeq(u, 1, Len(u) - 1)) ELSE u
Unit(u0) ==
  LET u == Bare(u0)  s == First(u, "/")  top == San(SubSeq(u, 1, s - 1), TRUE, FALSE)  bot == San(SubSeq(u, s + 1, Len(u)), TRUE, FALSE) IN
  IF u \in DOMAIN Units THEN Units[u]
  ELSE IF s > 0 /\ bot # "" THEN (IF Get(Units, top) = "" THEN "per_" ELSE Get(Units, top) \o "_per_") \o Get(Per, bot)
  ELSE Strip(San(u, TRUE, FALSE))
(* -- families ---------------------------------------------------------------*)
Type(k) == CASE k \in {"counter", "ocounter"} -> "counter" [] k = "hist" -> "histogram" [] OTHER -> "gauge"
Base(n) == LET a == Name(n.nm)  b == IF Type(n.k) = "counter" /\ Ends(a, "_total") THEN SubSeq(a, 1, Len(a) - 6) ELSE a  u == Unit(n.un) IN
           IF u # "" /\ ~Ends(b, "_" \o u) THEN b \o "_" \o u ELSE b
(* -- labels -----------------------------------------------------------------*)
RECURSIVE Join(_, _)
Join(q, sep) == IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o sep \o Join(Tail(q), sep)
Scalar(v, quoted) == IF v[1] = "s" /\ quoted THEN "\"" \o v[2] \o "\"" ELSE v[2]
Text(v) == IF v[1] = "a" THEN "[" \o Join([i \in 1..Len(v[2]) |-> Scalar(v[2][i], TRUE)], ", ") \o "]" ELSE Scalar(v, FALSE)
Labels(at) == {<<l, Join([i \in 1..Len(q) |-> Text(q[i][2])], ";")>> : <<l, q>> \in {<<Label(at[j][1]), SelectSeq(at, LAMBDA p : Label(p[1]) = Label(at[j][1]))>> : j \in 1..Len(at)}}
(* -- state ------------------------------------------------------------------*)
SInit(c) == [c |-> c, n |-> 0, rec |-> <<>>, coll |-> <<>>, last |-> 0, down |-> FALSE]
Async(k) == k \in {"ocounter", "oudc", "ogauge"}
Counts(s, m) == ~(s.c.inst[s.rec[m].i].k \in {"counter", "hist"} /\ s.rec[m].v < 0)
May(s, i, a) == {m \in DOMAIN s.rec : s.rec[m].i = i /\ s.rec[m].a = a /\ Counts(s, m)}
Must(s, i, a, col) == {m \in May(s, i, a) : s.rec[m].ret > 0 /\ s.rec[m].ret < col.call}
RECURSIVE SumV(_, _)
SumV(s, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN s.rec[x].v + SumV(s, S \ {x})
Le(i) == ToString(i)
Up(bd, j, s, S) == Cardinality({m \in S : j > Len(bd) \/ s.rec[m].v <= bd[j]})
(* expected series of one cell: [sn, lb, lo, hi, opt, i, a]                   *)
Series(s, i, a, col) ==
  LET n == s.c.inst[i]  b == Base(n)  L == Labels(a)  may == May(s, i, a)  mu == Must(s, i, a, col)
      mk(sn, lb, lo, hi, opt) == [sn |-> sn, lb |-> lb, lo |-> lo, hi |-> hi, opt |-> opt, i |-> i, a |-> a] IN
  CASE n.k \in {"counter", "udc"} -> {mk(IF n.k = "counter" THEN b \o "_total" ELSE b, L, SumV(s, mu), SumV(s, may), mu = {})}
    [] n.k = "hist" -> {mk(b \o "_bucket", L \cup {<<"le", IF j > Len(n.bd) THEN "+Inf" ELSE Le(n.bd[j])>>}, Up(n.bd, j, s, mu), Up(n.bd, j, s, may), mu = {}) : j \in 1..(Len(n.bd) + 1)}
                       \cup {mk(b \o "_count", L, Cardinality(mu), Cardinality(may), mu = {} \/ (n.bd # <<>> /\ n.bd[1] < 0))}
                       \cup {mk(b \o "_sum", L, SumV(s, mu), SumV(s, may), mu = {} \/ (n.bd # <<>> /\ n.bd[1] < 0))}
    [] n.k = "gauge" -> LET new == {m \in may : s.c.conc \/ s.rec[m].call > s.last} IN
                        IF new = {} THEN {} ELSE
                        LET top == CHOOSE m \in new : \A o \in new : s.rec[o].call <= s.rec[m].call IN
                        {mk(b, L, IF s.c.conc THEN 0 ELSE s.rec[top].v, IF s.c.conc THEN SumV(s, new) ELSE s.rec[top].v, s.c.conc)}
    [] OTHER -> LET q == SelectSeq(col.obs, LAMBDA o : o[1] = i /\ o[2] = a) IN
                IF q = <<>> THEN {} ELSE {mk(IF n.k = "ocounter" THEN b \o "_total" ELSE b, L, q[1][3], q[1][3], FALSE)}
Cells(s, col) == {<<s.rec[m].i, s.rec[m].a>> : m \in {x \in DOMAIN s.rec : Counts(s, x)}} \cup {<<col.obs[j][1], col.obs[j][2]>> : j \in 1..Len(col.obs)}
Expected(s, col) == UNION {Series(s, x[1], x[2], col) : x \in Cells(s, col)}
RECURSIVE Flat(_)
Flat(fs) == IF fs = <<>> THEN <<>> ELSE [j \in 1..Len(fs[1].samples) |-> [f |-> fs[1], sn |-> fs[1].samples[j][1], lb |-> Set(fs[1].samples[j][2]), n |-> Len(fs[1].samples[j][2]), v |-> fs[1].samples[j][3]]] \o Flat(Tail(fs))
ScrapeFails(s, e) ==
  LET col == s.coll[e.sid]  want == IF s.down THEN {} ELSE Expected(s, col)
      info == SelectSeq(e.fams, LAMBDA f : f.type = "info")
      got == Flat(SelectSeq(e.fams, LAMBDA f : f.type # "info"))
      key(x) == <<x.sn, x.lb>>
      clash(x) == \E y \in want : y # x /\ key(y) = key(x)
      clear == {x \in want : ~clash(x)}
  IN IF e.err # "" THEN {"scrape-raised"} ELSE
        (IF \A j \in 1..Len(got) : \E x \in want : key(x) = key(got[j]) THEN {} ELSE {"unexpected-series"})
   \cup (IF \A j \in 1..Len(got) : got[j].n = Cardinality(got[j].lb) THEN {} ELSE {"label-twice"})
   \cup UNION {LET here == {j \in 1..Len(got) : key(got[j]) = key(x)} IN
               (IF Cardinality(here) > 1 THEN {"series-twice"} ELSE {})
          \cup (IF here = {} /\ ~x.opt THEN {"missing-series"} ELSE {})
          \cup (IF \A j \in here : got[j].v >= x.lo /\ got[j].v <= x.hi THEN {} ELSE {"wrong-value"})
          \cup (IF \A j \in here : LET n == s.c.inst[x.i] IN got[j].f.type = Type(n.k) /\ got[j].f.doc = n.ds /\ got[j].f.name = Base(n) /\ got[j].f.unit = Unit(n.un) THEN {} ELSE {"wrong-family"})
               : x \in clear}
   \cup (IF \A x \in clear : Ends(x.sn, "_count") /\ s.c.inst[x.i].k = "hist" =>
              \A j, h \in 1..Len(got) : key(got[j]) = key(x) /\ got[h].sn = Base(s.c.inst[x.i]) \o "_bucket" /\ got[h].lb = x.lb \cup {<<"le", "+Inf">>} => got[j].v = got[h].v
         THEN {} ELSE {"count-differs-from-last-bucket"})
   \cup (IF Len(info) > 1 \/ (info # <<>> /\ ~s.c.target) THEN {"info-twice-or-unwanted"} ELSE {})
   \cup (IF s.c.target /\ info = <<>> /\ \E x \in want : ~x.opt THEN {"info-missing"} ELSE {})
   \cup (IF \A j \in 1..Len(info) : info[j].name = "target" /\ Len(info[j].samples) = 1 /\ info[j].samples[1][1] = "target_info" /\ Set(info[j].samples[1][2]) = Labels(s.c.res) /\ info[j].samples[1][3] = 1 THEN {} ELSE {"wrong-info"})
   \cup (IF s.down \/ \A i \in 1..Len(s.c.inst) : Async(s.c.inst[i].k) => Cardinality({j \in 1..Len(col.cbs) : col.cbs[j] = i}) = 1 THEN {} ELSE {"collected-not-once"})
   \cup (IF e.text = "" THEN {} ELSE {"not-rendered"})
SFails(s, e) ==
  CASE e.op = "sret" -> ScrapeFails(s, e)
    [] e.op \in {"ret", "fret", "downret"} -> IF e.err = "" THEN {} ELSE {e.op \o "-raised"}
    [] e.op = "fail" -> {"fail-" \o e.what}
    [] OTHER -> {}
SApply(s0, e) ==
  LET s == [s0 EXCEPT !.n = @ + 1] IN
  CASE e.op = "call" -> [s EXCEPT !.rec = Ins(@, e.id, [i |-> e.i, v |-> e.v, a |-> e.a, call |-> s.n, ret |-> 0])]
    [] e.op = "ret"  -> [s EXCEPT !.rec[e.id].ret = s.n]
    [] e.op \in {"scall", "fcall"} -> [s EXCEPT !.coll = Ins(@, e.sid, [call |-> s.n, obs |-> <<>>, cbs |-> <<>>])]
    [] e.op = "cb"   -> IF e.sid \notin DOMAIN s.coll THEN s ELSE
                        [s EXCEPT !.coll[e.sid].cbs = Append(@, e.i), !.coll[e.sid].obs = @ \o [j \in 1..Len(e.obs) |-> <<e.i, e.obs[j][1], e.obs[j][2]>>]]
    [] e.op \in {"sret", "fret"} -> [s EXCEPT !.last = s.n]
    [] e.op = "downret" -> [s EXCEPT !.down = TRUE]
    [] OTHER -> s
=============================================================================
