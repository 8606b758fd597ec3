------------------------------ MODULE MCHandler ------------------------------
EXTENDS Handler, GenKit
MCfgs == [provider : {"given", "global", "proxy", "absent", "disabled", "noop"}, hlevel : {0, 30}, fmt : {"", "F"}, fault : {FALSE}]
L(l, m, x, sp, ex) == [op |-> "log", level |-> l, msg |-> m, exc |-> x, span |-> sp, extra |-> ex, loglevel |-> 1, filtered |-> FALSE]
Logs == {L(l, m, "none", "none", <<>>) : l \in {5, 10, 15, 20, 29, 30, 40, 50, 60}, m \in {"plain", "args"}}
        \cup {L(40, m, x, sp, <<>>) : m \in {"plain", "o", "badargs", "badstr"}, x \in {"none", "args", "noargs", "caught", "nothing", "badexc"}, sp \in {"none", "valid", "remote"}}
        \cup {L(30, "plain", x, "valid", <<<<"s:k", v>>, <<"s:", <<"i:1">>>>, <<"s:code", <<"s:mine">>>>>>) : x \in {"none", "args"}, v \in {<<"s:v">>, <<"O:obj">>, <<"L", "i:1", "n:">>}}
MInit(c) == [c |-> c, set |-> c.provider \in {"given", "global"}, bad |-> {}]
MOps(w) == Logs \cup {[op |-> "setglobal"], [op |-> "flush"]}
MApply(w, e) == [w EXCEPT !.set = IF e.op = "setglobal" /\ w.c.provider = "proxy" THEN TRUE ELSE @,
                          !.bad = IF e.op = "log" /\ \E l \in {5, 10, 20, 30, 40, 50} : \E a \in Named(l), b \in Named(e.level) : l < e.level /\ Named(l) # Named(e.level) /\ b <= a THEN {"ranges"} ELSE {}]
Inv == ks.bad = {}
=============================================================================
