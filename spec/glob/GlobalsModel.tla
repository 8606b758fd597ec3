----------------------------- MODULE GlobalsModel ----------------------------
(* The protocol behind G01, at the granularity at which threads interleave:   *)
(* setters race through a once-only gate, the winner publishes its provider   *)
(* and then, meter by meter and instrument by instrument, connects what was   *)
(* made before; creators meanwhile take meters and make instruments.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Setters, Creators, PerCreator
VARIABLES done, once, glob, real, meters, mreal, insts, back, plock, mlock, pc, my, made, got
vars == <<done, once, glob, real, meters, mreal, insts, back, plock, mlock, pc, my, made, got>>
(* meters: early meters in order; mreal: their real ones (0: none yet);       *)
(* insts: instruments of each; back: how many real ones stand behind each.    *)
Init == /\ done = FALSE /\ once = 0 /\ glob = 0 /\ real = 0 /\ meters = <<>> /\ mreal = <<>> /\ insts = <<>> /\ plock = 0 /\ mlock = <<>>
        /\ back = [c \in Creators |-> <<>>]
        /\ pc = [t \in Setters \cup Creators |-> IF t \in Setters THEN "set" ELSE "read"]
        /\ my = [t \in Setters \cup Creators |-> 0] /\ made = [c \in Creators |-> 0] /\ got = [t \in Setters \cup Creators |-> 0]
Go(t, x) == pc' = [pc EXCEPT ![t] = x]
(* --- setters *)
S1(t) == /\ pc[t] = "set" /\ IF done THEN Go(t, "ret") /\ UNCHANGED once ELSE once = 0 /\ once' = t /\ Go(t, "in")
         /\ UNCHANGED <<done, glob, real, meters, mreal, insts, back, plock, mlock, my, made, got>>
S2(t) == /\ pc[t] = "in" /\ IF done THEN Go(t, "out") /\ UNCHANGED glob ELSE glob' = t /\ Go(t, "prox")
         /\ UNCHANGED <<done, once, real, meters, mreal, insts, back, plock, mlock, my, made, got>>
S3(t) == /\ pc[t] = "prox" /\ plock = 0 /\ plock' = t /\ real' = t /\ my' = [my EXCEPT ![t] = 1] /\ Go(t, "loop")
         /\ UNCHANGED <<done, once, glob, meters, mreal, insts, back, mlock, made, got>>
S4(t) == /\ pc[t] = "loop"
         /\ IF my[t] > Len(meters) THEN Go(t, "fin") /\ plock' = 0 /\ UNCHANGED mlock
            ELSE mlock[my[t]] = 0 /\ mlock' = [mlock EXCEPT ![my[t]] = t] /\ Go(t, "conn") /\ UNCHANGED plock
         /\ UNCHANGED <<done, once, glob, real, meters, mreal, insts, back, my, made, got>>
S5(t) == /\ pc[t] = "conn" /\ LET m == my[t] IN
            /\ mreal' = [mreal EXCEPT ![m] = t] /\ mlock' = [mlock EXCEPT ![m] = 0]
            /\ back' = [c \in Creators |-> [i \in 1..Len(back[c]) |-> IF \E k \in 1..Len(insts[m]) : insts[m][k] = <<c, i>> THEN back[c][i] + 1 ELSE back[c][i]]]
            /\ my' = [my EXCEPT ![t] = @ + 1] /\ Go(t, "loop")
         /\ UNCHANGED <<done, once, glob, real, meters, insts, plock, made, got>>
S6(t) == /\ pc[t] = "fin" /\ done' = TRUE /\ Go(t, "out") /\ UNCHANGED <<once, glob, real, meters, mreal, insts, back, plock, mlock, my, made, got>>
S7(t) == /\ pc[t] = "out" /\ once' = 0 /\ Go(t, "ret") /\ UNCHANGED <<done, glob, real, meters, mreal, insts, back, plock, mlock, my, made, got>>
S8(t) == /\ pc[t] = "ret" /\ got' = [got EXCEPT ![t] = IF glob = 0 THEN -1 ELSE glob] /\ Go(t, "end") /\ UNCHANGED <<done, once, glob, real, meters, mreal, insts, back, plock, mlock, my, made>>
(* --- creators: read the global; take a meter; make instruments *)
C1(c) == /\ pc[c] = "read" /\ Go(c, IF glob # 0 THEN "direct" ELSE "meter") /\ UNCHANGED <<done, once, glob, real, meters, mreal, insts, back, plock, mlock, my, made, got>>
C2(c) == /\ pc[c] = "meter" /\ plock = 0
         /\ IF real # 0 THEN Go(c, "direct") /\ UNCHANGED <<meters, mreal, insts, mlock, my>>
            ELSE /\ meters' = Append(meters, c) /\ mreal' = Append(mreal, 0) /\ insts' = Append(insts, <<>>) /\ mlock' = Append(mlock, 0)
                 /\ my' = [my EXCEPT ![c] = Len(meters) + 1] /\ Go(c, "make")
         /\ UNCHANGED <<done, once, glob, real, back, plock, made, got>>
C3(c) == /\ pc[c] = "make" /\ made[c] < PerCreator /\ mlock[my[c]] = 0
         /\ made' = [made EXCEPT ![c] = @ + 1]
         /\ IF mreal[my[c]] # 0 THEN back' = [back EXCEPT ![c] = Append(@, 1)] /\ UNCHANGED insts
            ELSE back' = [back EXCEPT ![c] = Append(@, 0)] /\ insts' = [insts EXCEPT ![my[c]] = Append(@, <<c, Len(back[c]) + 1>>)]
         /\ UNCHANGED <<done, once, glob, real, meters, mreal, plock, mlock, pc, my, got>>
C4(c) == /\ pc[c] = "direct" /\ made[c] < PerCreator /\ made' = [made EXCEPT ![c] = @ + 1] /\ back' = [back EXCEPT ![c] = Append(@, 1)]
         /\ UNCHANGED <<done, once, glob, real, meters, mreal, insts, plock, mlock, pc, my, got>>
Next == (\E t \in Setters : S1(t) \/ S2(t) \/ S3(t) \/ S4(t) \/ S5(t) \/ S6(t) \/ S7(t) \/ S8(t)) \/ (\E c \in Creators : C1(c) \/ C2(c) \/ C3(c) \/ C4(c))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SetDone == \E t \in Setters : pc[t] = "end"
Quiet == \A t \in Setters : pc[t] = "end"
OneWinner == \A t, u \in Setters : got[t] # 0 /\ got[u] # 0 => got[t] = got[u] /\ got[t] > 0
AtMostOne == \A c \in Creators : \A i \in 1..Len(back[c]) : back[c][i] <= 1
(* once a set has returned nothing is disconnected any more                   *)
Connected == SetDone => \A c \in Creators : \A i \in 1..Len(back[c]) : back[c][i] = 1
Stable == [][glob # 0 => glob' = glob]_vars
Ends == <>Quiet
=============================================================================
