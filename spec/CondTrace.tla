----------------------------- MODULE CondTrace -----------------------------
(***************************************************************************)
(* Recorded executions of mutexes and condition variables against the      *)
(* contract, with a clock: now is the (virtual) time, dl the deadline of a *)
(* timed waiter, wk the number of stray wakeups it saw.                    *)
(***************************************************************************)
EXTENDS TraceIO

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
TMutexes == 1..8
TConds == 1..8
VARIABLES owner, want, cw, now, dl, wk
C == INSTANCE Cond WITH Tasks <- TTasks, Mutexes <- TMutexes, Conds <- TConds
cv == <<owner, want, cw>>
av == <<owner, want, cw, now, dl, wk>>

TraceInit == /\ TInit /\ C!Init /\ now = <<0, 0>>
             /\ dl = [t \in TTasks |-> <<0, 0>>]
             /\ wk = [t \in TTasks |-> 0]

Mx == Cur.a + 1
Cv == Cur.a + 1
Mx2 == Cur.b + 1
Same == UNCHANGED <<now, dl, wk>>

\* a millisecond may be lost per stray wakeup
Slack(t) == wk[t] * 1000000
Passed(t) == LET x == TAdd(now, 0, IF Slack(t) < 900000000 THEN Slack(t) ELSE 900000000)
             IN TLeq(dl[t], x)
\* a timed-out waiter may be chosen until it has the mutex, so expiry is
\* folded into the return: mark it expired in the same step
TimeoutRet(t) ==
    /\ cw[t].st = "wait" /\ cw[t].timed /\ Passed(t)
    /\ C!Back(t)

\* nobody may be overdue, and the clock is armed for the earliest deadline
QuietNow ==
    /\ C!NoneStuck
    /\ \A t \in TTasks : (cw[t].st = "wait" /\ cw[t].timed) =>
          \/ owner[cw[t].m] # C!None /\ Passed(t)
          \/ TLt(now, dl[t]) /\ Cur.a = 1 /\ TLeq(<<Cur.b, Cur.c>>, dl[t])
    /\ UNCHANGED av

Deadline(ms) == TAdd(now, ms \div 1000, (ms % 1000) * 1000000)

Step ==
    \/ IsOp("lock") /\ Cur.r = 0 /\ C!LockNow(Cur.t, Mx) /\ Same
    \/ IsCall("lock") /\ C!LockCall(Cur.t, Mx) /\ Same
    \/ IsRet("lock") /\ Cur.r = 0 /\ C!LockRet(Cur.t, Mx) /\ Same
    \/ IsOp("trylock") /\ Cur.r = 0 /\ C!TryOk(Cur.t, Mx) /\ Same
    \/ IsOp("trylock") /\ Cur.r = -1 /\ C!TryFail(Cur.t, Mx) /\ Same
    \/ IsOp("unlock") /\ Cur.r = 0 /\ C!Unlock(Cur.t, Mx) /\ Same
    \/ IsCall("cwait") /\ C!WaitCall(Cur.t, Cv, Mx2, FALSE) /\ Same
    \/ IsRet("cwait") /\ Cur.r = 0 /\ C!WaitOk(Cur.t) /\ Same
    \/ IsOp("ctimed") /\ Cur.r = -1 /\ Cur.c = 0 /\ C!WaitZero(Cur.t, Mx2) /\ Same
    \/ /\ IsCall("ctimed") /\ Cur.c > 0 /\ C!WaitCall(Cur.t, Cv, Mx2, TRUE)
       /\ dl' = [dl EXCEPT ![Cur.t] = Deadline(Cur.c)]
       /\ wk' = [wk EXCEPT ![Cur.t] = 0] /\ UNCHANGED now
    \/ IsRet("ctimed") /\ Cur.r = 0 /\ C!WaitOk(Cur.t) /\ Same
    \/ IsRet("ctimed") /\ Cur.r = -1 /\ TimeoutRet(Cur.t) /\ Same
    \/ IsOp("csig") /\ Cur.r = 0 /\ C!Signal(Cv) /\ Same
    \/ IsOp("cbc") /\ Cur.r = 0 /\ C!Broadcast(Cv) /\ Same
    \/ /\ IsOp("wake") /\ UNCHANGED <<owner, want, cw, now, dl>>
       /\ wk' = [wk EXCEPT ![Cur.a] = @ + 1]
    \/ (IsEv("quiet") \/ IsEv("final")) /\ QuietNow
    \/ IsEv("time") /\ now' = <<Cur.a, Cur.b>> /\ UNCHANGED <<owner, want, cw, dl, wk>>
    \/ More /\ Cur.e \in {"start", "done", "sysret", "note"} /\ UNCHANGED av
    \/ More /\ Cur.o \in {"yield", "sleep", "usleep", "spawn"} /\ UNCHANGED av

TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED av
=============================================================================
