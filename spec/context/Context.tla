------------------------------- MODULE Context -------------------------------
(* Contexts, execution flows (threads, asynchronous tasks, copied contexts),  *)
(* attach and detach, and blocks that make a span current (C01, C02).         *)
(* The content of a context: the values under two keys made with the same     *)
(* name, and the current span; 0: none.  Context -1 is an empty context.       *)
EXTENDS Integers, Sequences, TLC, FiniteSets
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Empty == [a |-> 0, b |-> 0, sp |-> 0]
SInit(c) == [cur |-> (1 :> Empty), made |-> (-1 :> Empty), tok |-> [x \in {} |-> 0], blk |-> (1 :> <<>>), dead |-> {}]
(* a token: the flow it belongs to, what was current before, and whether it   *)
(* has been used; a block: what was current before, its span, whether to end  *)
Put(m, k, v) == IF k = "a" THEN [m EXCEPT !.a = v] ELSE [m EXCEPT !.b = v]
Top(s, f) == s.blk[f][Len(s.blk[f])]
Same(m, e) == m.a = e.a /\ m.b = e.b /\ m.sp = e.sp
Effective(s, e) == LET t == s.tok[e.tok] IN t.f = e.f /\ ~t.used
New(s, e) == Put(IF e.from = 0 THEN s.cur[e.f] ELSE s.made[e.from], e.k, e.v)
SFails(s, e) ==
  CASE e.op = "obs" -> (IF s.cur[e.f].sp # e.sp THEN {"current-span"} ELSE {}) \cup (IF s.cur[e.f].a # e.a \/ s.cur[e.f].b # e.b THEN {"current-context"} ELSE {})
    [] e.op = "mk" -> IF Same(New(s, e), e.got) THEN {} ELSE {"set-value"}
    [] e.op = "look" -> IF Same(s.made[e.c], e) THEN {} ELSE {"context-changed"}
    [] e.op = "mut" -> IF e.refused THEN {} ELSE {"context-modified"}
    [] e.op = "det" -> IF e.err # "" THEN {"detach-raised"} ELSE {}
    [] e.op = "ext" -> (IF e.ended # (IF Top(s, e.f).end THEN <<Top(s, e.f).sp>> ELSE <<>>) THEN {"span-ended-on-exit"} ELSE {})
                  \cup (IF e.out # "ok" /\ ~e.prop THEN {"exception-not-propagated"} ELSE {})
                  \cup (IF e.out = "ok" /\ e.prop THEN {"exception-invented"} ELSE {})
    [] e.op = "ended" -> {"span-ended-inside-its-block"}
    [] e.op = "fail" -> {e.what}
    [] OTHER -> {}
SApply(s, e) ==
  CASE e.op = "spawn" -> [s EXCEPT !.cur = (e.g :> IF e.how = "thread" THEN Empty ELSE s.cur[e.f]) @@ @, !.blk = (e.g :> <<>>) @@ @]
    [] e.op = "mk" -> [s EXCEPT !.made = (e.c :> New(s, e)) @@ @]
    [] e.op = "att" -> [s EXCEPT !.tok = (e.tok :> [f |-> e.f, old |-> s.cur[e.f], used |-> FALSE]) @@ @, !.cur[e.f] = IF e.c = 0 THEN @ ELSE s.made[e.c]]
    [] e.op = "det" -> IF Effective(s, e) THEN [s EXCEPT !.tok[e.tok].used = TRUE, !.cur[e.f] = s.tok[e.tok].old] ELSE s
    [] e.op = "ent" -> [s EXCEPT !.blk[e.f] = Append(@, [old |-> s.cur[e.f], sp |-> e.sp, end |-> e.end]), !.cur[e.f].sp = e.sp]
    [] e.op = "ext" -> [s EXCEPT !.cur[e.f] = Top(s, e.f).old, !.blk[e.f] = SubSeq(@, 1, Len(@) - 1)]
    [] OTHER -> s
=============================================================================
