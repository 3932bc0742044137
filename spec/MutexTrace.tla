---------------------------- MODULE MutexTrace ----------------------------
(* Recorded executions of lock, trylock, unlock against the contract.      *)
EXTENDS TraceIO

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
TMutexes == 1..8
VARIABLES owner, want
M == INSTANCE Mutex WITH Tasks <- TTasks, Mutexes <- TMutexes

mv == <<owner, want>>
TraceInit == TInit /\ M!Init

\* mutex numbers are recorded from 0
Mx == Cur.a + 1
Step ==
    \/ IsOp("lock") /\ Cur.r = 0 /\ M!LockNow(Cur.t, Mx)
    \/ IsCall("lock") /\ M!LockCall(Cur.t, Mx)
    \/ IsRet("lock") /\ Cur.r = 0 /\ M!LockRet(Cur.t, Mx)
    \/ IsOp("trylock") /\ Cur.r = 0 /\ M!TryOk(Cur.t, Mx)
    \/ IsOp("trylock") /\ Cur.r = -1 /\ M!TryFail(Cur.t, Mx)
    \/ IsOp("unlock") /\ Cur.r = 0 /\ M!Unlock(Cur.t, Mx)
    \/ IsOp("wake") /\ M!Stray(Cur.a)
    \/ IsEv("quiet") /\ M!Quiet
    \/ IsEv("final") /\ M!Quiet
    \/ More /\ Cur.e \in {"time", "start", "done", "sysret", "note"} /\ UNCHANGED mv
    \/ More /\ Cur.o \in {"yield", "sleep", "usleep", "spawn"} /\ UNCHANGED mv

TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED mv
=============================================================================
