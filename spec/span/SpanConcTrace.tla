--------------------------- MODULE SpanConcTrace ----------------------------
EXTENDS SpanConc, TLC, Json, IOUtils, SequencesExt
T == JsonDeserialize(IOEnv.TRACES)
TCalls == UNION {{T[x].cfg.ops[y].c : y \in 1..Len(T[x].cfg.ops)} : x \in 1..Len(T)}
TProcs == {"p0", "p1"}
VARIABLES ti, l
tvars == <<cvars, ti, l>>
Ev == T[ti].ev[l]
OpOf(x, c) == LET S == {y \in 1..Len(T[x].cfg.ops) : T[x].cfg.ops[y].c = c} IN
              IF S = {} THEN [k |-> "none", x |-> ""] ELSE LET o == T[x].cfg.ops[CHOOSE y \in S : TRUE] IN [k |-> o.k, x |-> o.x]
TInit == /\ ti \in 1..Len(T) /\ l = 1 /\ TLCSet(ti, 1) /\ CInit
         /\ op = [c \in Calls |-> OpOf(ti, c)]
Pairs(f) == {<<k, f[k]>> : k \in DOMAIN f}
Snap(v) == /\ v.ev = evs /\ ToSet(v.a) = Pairs(attrs) /\ Len(v.a) = Cardinality(DOMAIN attrs)
           /\ v.nm = nm /\ v.st = stc /\ v.rec = FALSE
           /\ v.end = op[winner].x
Silent == l <= Len(T[ti].ev) /\ UNCHANGED <<ti, l>> /\ \E c \in Calls : Lin(c)
Observed ==
  /\ l <= Len(T[ti].ev) /\ l' = l + 1 /\ ti' = ti
  /\ CASE Ev.e = "C" -> Begin(Ev.c)
       [] Ev.e = "R" -> Return(Ev.c) /\ (op[Ev.c].k = "rec" => Ev.r = res[Ev.c])
       [] Ev.e = "E" -> Tell(Ev.p) /\ Snap(Ev.v)
       [] Ev.e = "S" -> UNCHANGED cvars          \* start reported (before anything else)
       [] Ev.e = "Q" -> UNCHANGED cvars /\ (told # {} => Snap(Ev.v)) /\ (phase = "ended" => told = Procs) /\ Ev.starts = 1
       [] OTHER -> FALSE
TNext == Silent \/ Observed
TSpec == TInit /\ [][TNext]_tvars
Reg == (IF TLCGet(ti) < l THEN TLCSet(ti, l) ELSE TRUE) /\ TLCGet(ti) <= Len(T[ti].ev)
Report == PrintT("MAXL " \o ToJson([x \in 1..Len(T) |-> TLCGet(x)]))
=============================================================================
