------------------------------ MODULE GrpcImpl ------------------------------
(* The gRPC exporter's lock and flag, with exports and shutdowns interleaved. *)
(* Recheck = FALSE: the flag is only tested before the lock is taken.         *)
(* Owned = FALSE: a shutdown that timed out waiting still releases the lock.  *)
(* Once = FALSE: the flag is tested and set separately.                       *)
(* Time stands still but for a shutdown's waiting time, which may run out.    *)
EXTENDS Export
CONSTANTS Exps, Stops, Recheck, Owned, Once, Tries
VARIABLES pc, lock, flag, closed, n, tmo, k, bad
vars == <<pc, lock, flag, closed, n, tmo, k, bad>>
U == [endpoint |-> "", headers |-> <<>>, compression |-> "", timeout |-> "", insecure |-> "", ca |-> "", crt |-> "", key |-> ""]
C == [kind |-> "grpc", signal |-> "traces", max |-> 0, slack |-> 0, arg |-> U, sig |-> U, gen |-> U]
Init == /\ pc = [p \in Exps \cup Stops |-> "go"] /\ lock = "" /\ flag = FALSE /\ closed = FALSE /\ n = [p \in Exps |-> 0]
        /\ tmo = [p \in Stops |-> FALSE] /\ k = SInit(C) /\ bad = {}
(* waiting in vain takes all of a shutdown's time: its return is judged then  *)
See(e) == k' = SApply(k, e) /\ bad' = bad \cup (SFails(k, e) \ {"retry-too-early", "shutdown-late"})
Quiet == UNCHANGED <<k, bad>>
Go(p, l) == pc' = [pc EXCEPT ![p] = l]
A(p) == [op |-> "A", k |-> p, items |-> <<1>>, t |-> 0, url |-> "localhost:4317", sec |-> FALSE, hdr |-> <<>>, enc |-> "none", tmo |-> "10", well |-> TRUE, tls |-> <<"", "", "">>]
Exp(p) ==
  \/ /\ pc[p] = "go" /\ See([op |-> "E", k |-> p, items |-> <<1>>, t |-> 0]) /\ Go(p, IF flag THEN "fail" ELSE "loop") /\ UNCHANGED <<lock, flag, closed, n, tmo>>
  \/ /\ pc[p] = "loop" /\ Go(p, IF flag \/ n[p] = Attempts THEN "fail" ELSE "lock") /\ Quiet /\ UNCHANGED <<lock, flag, closed, n, tmo>>
  \/ /\ pc[p] = "lock" /\ lock = "" /\ lock' = p /\ Go(p, "check") /\ Quiet /\ UNCHANGED <<flag, closed, n, tmo>>
  \/ /\ pc[p] = "check" /\ Go(p, IF Recheck /\ flag THEN "unlockf" ELSE "call") /\ Quiet /\ UNCHANGED <<lock, flag, closed, n, tmo>>
  \/ /\ pc[p] = "call" /\ UNCHANGED <<lock, flag, closed, n, tmo>>
     /\ IF closed THEN Go(p, IF Recheck THEN "unlockf" ELSE "raise") /\ Quiet ELSE Go(p, "flying") /\ See(A(p))
  \/ /\ pc[p] = "flying" /\ UNCHANGED <<lock, flag, closed, tmo>>
     /\ \/ ~closed /\ Go(p, "unlocks") /\ See([op |-> "AR", k |-> p, o |-> "ok", d |-> -1, t |-> 0]) /\ UNCHANGED n
        \/ ~closed /\ Go(p, "unlockf") /\ See([op |-> "AR", k |-> p, o |-> "fatal", d |-> -1, t |-> 0]) /\ UNCHANGED n
        \/ (closed \/ n[p] < Tries) /\ Go(p, "unlockr") /\ See([op |-> "AR", k |-> p, o |-> "retry", d |-> 0, t |-> 0]) /\ n' = [n EXCEPT ![p] = @ + 1]
  \/ /\ pc[p] \in {"unlocks", "unlockf", "unlockr"} /\ Quiet /\ lock' = "" /\ UNCHANGED <<flag, closed, n, tmo>>
     /\ Go(p, IF lock # p THEN "raise" ELSE CASE pc[p] = "unlocks" -> "ok" [] pc[p] = "unlockf" -> "fail" [] OTHER -> "loop")
  \/ /\ pc[p] \in {"ok", "fail"} /\ Go(p, "done") /\ See([op |-> "ER", k |-> p, r |-> pc[p], t |-> 0]) /\ UNCHANGED <<lock, flag, closed, n, tmo>>
  \/ /\ pc[p] = "raise" /\ Go(p, "done") /\ See([op |-> "ER", k |-> p, r |-> "raised", t |-> 0]) /\ UNCHANGED <<lock, flag, closed, n, tmo>>
Stop(p) ==
  \/ /\ pc[p] = "go" /\ See([op |-> "S", f |-> p, to |-> 10, t |-> 0]) /\ Go(p, IF flag THEN "ret" ELSE "lock") /\ UNCHANGED <<lock, flag, closed, n, tmo>>
  \/ /\ pc[p] = "lock" /\ lock = "" /\ lock' = p /\ Go(p, "flag") /\ Quiet /\ UNCHANGED <<flag, closed, n, tmo>>
  \/ /\ pc[p] = "lock" /\ lock # "" /\ tmo' = [tmo EXCEPT ![p] = TRUE] /\ Go(p, "flag") /\ Quiet /\ UNCHANGED <<lock, flag, closed, n>>
  \/ /\ pc[p] = "flag" /\ flag' = TRUE /\ Go(p, IF flag /\ Once THEN "unlock" ELSE "close") /\ Quiet /\ UNCHANGED <<lock, closed, n, tmo>>
  \/ /\ pc[p] = "close" /\ closed' = TRUE /\ Go(p, "unlock") /\ See([op |-> "CL", t |-> 0]) /\ UNCHANGED <<lock, flag, n, tmo>>
  \/ /\ pc[p] = "unlock" /\ lock' = (IF tmo[p] /\ Owned THEN lock ELSE "") /\ Quiet /\ UNCHANGED <<flag, closed, n, tmo>>
     /\ Go(p, "ret")
  \/ /\ pc[p] = "ret" /\ Go(p, "done") /\ See([op |-> "SR", f |-> p, err |-> "", t |-> IF tmo[p] THEN 10 ELSE 0]) /\ UNCHANGED <<lock, flag, closed, n, tmo>>
Next == (\E p \in Exps : Exp(p)) \/ (\E p \in Stops : Stop(p))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Good == bad = {}
Over == <>(\A p \in Exps \cup Stops : pc[p] = "done")
=============================================================================
