------------------------------ MODULE AggImpl -------------------------------
(* The algorithm of the metric SDK for one instrument and two readers:        *)
(* look a cell up (create it under a lock), aggregate under the cell's lock,  *)
(* per reader in turn; a collection takes the reader's lock, fixes its time,  *)
(* then visits the cells one at a time.  Checked against the Metrics          *)
(* specification (used as a monitor of the calls and returns) for all         *)
(* interleavings: Good says the monitor never objects.                        *)
EXTENDS Metrics
CONSTANTS Kind, Meas, Colls
ASSUME Kind \in {"counter", "hist", "gauge"}
AttOf(m) == IF m = "3" THEN <<<<"k", <<"s:b">>>>>> ELSE <<<<"k", <<"s:a">>>>>>
ValOf(m) == CASE m = "1" -> 1 [] m = "2" -> 2 [] m = "3" -> 4 [] OTHER -> 8
RdOf(x) == IF x \in {"1", "3"} THEN 1 ELSE 2
NoAgg == [a |-> "", bd |-> <<>>, mm |-> TRUE]
ICfg == [inst |-> <<[k |-> Kind, nm |-> "i", un |-> "u", ds |-> "d", sc |-> 1, ad |-> <<1, 3>>, ncb |-> 0]>>,
         rd |-> <<[tp |-> (Kind :> "C"), ag |-> (Kind :> NoAgg)], [tp |-> (Kind :> "D"), ag |-> (Kind :> NoAgg)]>>,
         views |-> <<>>, sc |-> <<[nm |-> "m", ver |-> "", url |-> ""]>>, defb |-> <<>>]
Ats == {AttOf(m) : m \in Meas}
VARIABLES mon, bad,         \* the monitor and the clauses it objected to
  mp, mr, mc,               \* measurement: control state, reader being served, whether the cell was found
  cells, val, prev, pstart, lastv, \* [r, at]: existence, fresh set, accumulated set, start time, last value
  cp, ctodo, cpts, ctime,   \* collection: control state, cells left to visit, points
  rlock, clk
ivars == <<mon, bad, mp, mr, mc, cells, val, prev, pstart, lastv, cp, ctodo, cpts, ctime, rlock, clk>>
K == {<<r, a>> : r \in {1, 2}, a \in Ats}
IInit == /\ mon = SApply(SInit(ICfg), [op |-> "made", i |-> 1, err |-> ""]) /\ bad = {}
         /\ mp = [m \in Meas |-> "new"] /\ mr = [m \in Meas |-> 1] /\ mc = [m \in Meas |-> FALSE]
         /\ cells = {} /\ val = [k \in K |-> {}] /\ prev = [k \in K |-> {}] /\ pstart = [k \in K |-> 0] /\ lastv = [k \in K |-> "none"]
         /\ cp = [x \in Colls |-> "new"] /\ ctodo = [x \in Colls |-> {}] /\ cpts = [x \in Colls |-> <<>>] /\ ctime = [x \in Colls |-> 0]
         /\ rlock = [r \in {1, 2} |-> "free"] /\ clk = 1
Obs(e) == mon' = SApply(mon, e) /\ bad' = bad \cup SFails(mon, e)
Call(m) == /\ mp[m] = "new" /\ mp' = [mp EXCEPT ![m] = "look"]
           /\ Obs([op |-> "call", id |-> m, i |-> 1, v |-> ValOf(m), a |-> AttOf(m)])
           /\ UNCHANGED <<mr, mc, cells, val, prev, pstart, lastv, cp, ctodo, cpts, ctime, rlock, clk>>
Look(m) == /\ mp[m] = "look" /\ mp' = [mp EXCEPT ![m] = "agg"]          \* find or create the cell (one step under its lock)
           /\ LET k == <<mr[m], AttOf(m)>> IN
              /\ cells' = cells \cup {k}
              /\ pstart' = IF k \in cells THEN pstart ELSE [pstart EXCEPT ![k] = clk]
           /\ UNCHANGED <<mon, bad, mr, mc, val, prev, lastv, cp, ctodo, cpts, ctime, rlock, clk>>
Aggr(m) == /\ mp[m] = "agg"
           /\ LET k == <<mr[m], AttOf(m)>> IN val' = [val EXCEPT ![k] = @ \cup {m}] /\ lastv' = [lastv EXCEPT ![k] = m]
           /\ IF mr[m] = 1 THEN mr' = [mr EXCEPT ![m] = 2] /\ mp' = [mp EXCEPT ![m] = "look"]
                           ELSE mr' = mr /\ mp' = [mp EXCEPT ![m] = "done"]
           /\ UNCHANGED <<mon, bad, mc, cells, prev, pstart, cp, ctodo, cpts, ctime, rlock, clk>>
Ret(m) == /\ mp[m] = "done" /\ mp' = [mp EXCEPT ![m] = "ret"] /\ Obs([op |-> "ret", id |-> m, err |-> ""])
          /\ UNCHANGED <<mr, mc, cells, val, prev, pstart, lastv, cp, ctodo, cpts, ctime, rlock, clk>>
CCall(x) == /\ cp[x] = "new" /\ cp' = [cp EXCEPT ![x] = "lock"]
            /\ Obs([op |-> "ccall", cid |-> x, r |-> RdOf(x), t |-> clk]) /\ clk' = clk + 1
            /\ UNCHANGED <<mp, mr, mc, cells, val, prev, pstart, lastv, ctodo, cpts, ctime, rlock>>
CLock(x) == /\ cp[x] = "lock" /\ rlock[RdOf(x)] = "free" /\ cp' = [cp EXCEPT ![x] = "visit"]
            /\ rlock' = [rlock EXCEPT ![RdOf(x)] = x]
            /\ ctime' = [ctime EXCEPT ![x] = clk] /\ clk' = clk + 1
            /\ ctodo' = [ctodo EXCEPT ![x] = Ats]
            /\ UNCHANGED <<mon, bad, mp, mr, mc, cells, val, prev, pstart, lastv, cpts>>
Min2(a, b) == IF a < b THEN a ELSE b
KindName == CASE Kind = "counter" -> "sum" [] Kind = "hist" -> "hist" [] OTHER -> "gauge"
Point(k, S, st, t) ==
  LET v == IF Kind = "gauge" THEN (IF S = {} THEN 0 ELSE ValOf(lastv[k])) ELSE LET RECURSIVE T(_) T(Z) == IF Z = {} THEN 0 ELSE LET z == CHOOSE z \in Z : TRUE IN ValOf(z) + T(Z \ {z}) IN T(S)
      lo == CHOOSE w \in {ValOf(z) : z \in S} : \A z \in S : w <= ValOf(z)
      hi == CHOOSE w \in {ValOf(z) : z \in S} : \A z \in S : w >= ValOf(z)
      h == Kind = "hist" IN
  [sc |-> 1, nm |-> "i", ds |-> "d", un |-> "u", kd |-> KindName, tp |-> IF Kind = "gauge" THEN "" ELSE IF k[1] = 1 THEN "C" ELSE "D", mo |-> Kind = "counter", at |-> k[2],
   st |-> IF Kind = "gauge" THEN -1 ELSE st, et |-> t, v |-> v, bk |-> IF h THEN [j \in 1..3 |-> Cardinality({z \in S : InBucket(<<1, 3>>, j, ValOf(z))})] ELSE <<>>,
   bd |-> IF h THEN <<1, 3>> ELSE <<>>, cnt |-> IF h THEN Cardinality(S) ELSE 0, hm |-> ~h \/ S # {},
   mn |-> IF h /\ S # {} THEN lo ELSE 0, mx |-> IF h /\ S # {} THEN hi ELSE 0]
Visit(x) ==
  /\ cp[x] = "visit" /\ ctodo[x] # {}
  /\ LET at == CHOOSE y \in ctodo[x] : TRUE  r == RdOf(x)  k == <<r, at>> IN
     /\ ctodo' = [ctodo EXCEPT ![x] = @ \ {at}]
     /\ IF k \notin cells THEN UNCHANGED <<val, prev, pstart, cpts>>
        ELSE LET S == IF r = 1 /\ Kind # "gauge" THEN prev[k] \cup val[k] ELSE val[k]  none == val[k] = {} /\ (r = 2 \/ Kind = "gauge") IN
             /\ val' = [val EXCEPT ![k] = {}]
             /\ prev' = [prev EXCEPT ![k] = IF r = 1 THEN S ELSE {}]
             /\ pstart' = [pstart EXCEPT ![k] = IF r = 2 THEN ctime[x] ELSE @]
             /\ cpts' = [cpts EXCEPT ![x] = IF none THEN @ ELSE Append(@, Point(k, S, Min2(pstart[k], ctime[x]), ctime[x]))]
  /\ UNCHANGED <<mon, bad, mp, mr, mc, cells, lastv, cp, ctime, rlock, clk>>

CRet(x) == /\ cp[x] = "visit" /\ ctodo[x] = {} /\ cp' = [cp EXCEPT ![x] = "ret"]
           /\ rlock' = [rlock EXCEPT ![RdOf(x)] = "free"]
           /\ Obs([op |-> "cret", cid |-> x, err |-> "", slow |-> FALSE, pts |-> cpts[x], sg |-> IF cpts[x] = <<>> THEN <<>> ELSE <<1>>, res |-> TRUE, t |-> clk])
           /\ clk' = clk + 1
           /\ UNCHANGED <<mp, mr, mc, cells, val, prev, pstart, lastv, ctodo, cpts, ctime>>
INext == \/ \E m \in Meas : Call(m) \/ Look(m) \/ Aggr(m) \/ Ret(m)
         \/ \E x \in Colls : CCall(x) \/ CLock(x) \/ Visit(x) \/ CRet(x)
ISpec == IInit /\ [][INext]_ivars
Good == bad = {}
(* nothing is lost or duplicated inside either *)
Accounted == \A m \in Meas : mp[m] \in {"done", "ret"} =>
               LET k == <<1, AttOf(m)>> IN Kind = "gauge" \/ m \in val[k] \cup prev[k]
=============================================================================
