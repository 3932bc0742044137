------------------------------- MODULE Cond -------------------------------
(***************************************************************************)
(* Contract of mutex and condition variable together.  The mutex part is   *)
(* the Mutex contract; a waiting task has a record in cw:                  *)
(*   c, m    condition and mutex                                           *)
(*   st      "wait": not yet chosen by a signal, "sig": chosen             *)
(*   timed   has a time-out                                                *)
(*   exp     its time-out has passed                                       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Tasks, Mutexes, Conds

VARIABLES owner, want, cw
vars == <<owner, want, cw>>

M == INSTANCE Mutex
None == 0
NoWait == [c |-> 0, m |-> 0, st |-> "none", timed |-> FALSE, exp |-> FALSE]

Init == M!Init /\ cw = [t \in Tasks |-> NoWait]

TypeOK == /\ M!TypeOK
          /\ \A t \in Tasks : cw[t].st \in {"none", "wait", "sig"}

Idle(t) == want[t] = None /\ cw[t].st = "none"
Waiting(c) == {t \in Tasks : cw[t].c = c /\ cw[t].st = "wait"}

LockNow(t, m) == Idle(t) /\ M!LockNow(t, m) /\ UNCHANGED cw
LockCall(t, m) == Idle(t) /\ M!LockCall(t, m) /\ UNCHANGED cw
LockRet(t, m) == M!LockRet(t, m) /\ UNCHANGED cw
TryOk(t, m) == Idle(t) /\ M!TryOk(t, m) /\ UNCHANGED cw
TryFail(t, m) == Idle(t) /\ M!TryFail(t, m) /\ UNCHANGED cw
Unlock(t, m) == Idle(t) /\ M!Unlock(t, m) /\ UNCHANGED cw

\* releasing the mutex and becoming a waiter is one step
WaitCall(t, c, m, timed) ==
    /\ Idle(t) /\ owner[m] = t
    /\ owner' = [owner EXCEPT ![m] = None]
    /\ cw' = [cw EXCEPT ![t] = [c |-> c, m |-> m, st |-> "wait",
                                timed |-> timed, exp |-> FALSE]]
    /\ UNCHANGED want

\* a wait with a zero time-out fails without letting anybody else run
WaitZero(t, m) == Idle(t) /\ owner[m] = t /\ UNCHANGED vars

Expire(t) == /\ cw[t].st # "none" /\ cw[t].timed /\ ~cw[t].exp
             /\ cw' = [cw EXCEPT ![t].exp = TRUE]
             /\ UNCHANGED <<owner, want>>

\* one of the waiters of this moment, whichever; none if there is none
Signal(c) == /\ IF Waiting(c) = {} THEN cw' = cw
                ELSE \E t \in Waiting(c) : cw' = [cw EXCEPT ![t].st = "sig"]
             /\ UNCHANGED <<owner, want>>
Broadcast(c) == /\ cw' = [t \in Tasks |-> IF t \in Waiting(c)
                             THEN [cw[t] EXCEPT !.st = "sig"] ELSE cw[t]]
                /\ UNCHANGED <<owner, want>>

Back(t) == /\ owner[cw[t].m] = None
           /\ owner' = [owner EXCEPT ![cw[t].m] = t]
           /\ cw' = [cw EXCEPT ![t] = NoWait]
           /\ UNCHANGED want
WaitOk(t) == cw[t].st = "sig" /\ Back(t)
WaitTimeout(t) == cw[t].st = "wait" /\ cw[t].timed /\ cw[t].exp /\ Back(t)

NoneStuck == /\ M!NoneStuck
             /\ \A t \in Tasks : (cw[t].st = "sig" \/ (cw[t].st = "wait" /\ cw[t].exp))
                                    => owner[cw[t].m] # None
Quiet == NoneStuck /\ UNCHANGED vars

Next == \/ \E t \in Tasks, m \in Mutexes : LockNow(t, m) \/ LockCall(t, m)
              \/ LockRet(t, m) \/ TryOk(t, m) \/ TryFail(t, m) \/ Unlock(t, m)
        \/ \E t \in Tasks, c \in Conds, m \in Mutexes, b \in BOOLEAN : WaitCall(t, c, m, b)
        \/ \E t \in Tasks, m \in Mutexes : WaitZero(t, m)
        \/ \E t \in Tasks : Expire(t) \/ WaitOk(t) \/ WaitTimeout(t)
        \/ \E c \in Conds : Signal(c) \/ Broadcast(c)
Spec == Init /\ [][Next]_vars

\* consequences of the contract
WaiterHasNoMutex == \A t \in Tasks, m \in Mutexes :
    cw[t].st # "none" /\ cw[t].m = m => owner[m] # t
\* delivery is never taken back
Delivered == [][\A t \in Tasks : cw[t].st = "sig" => cw'[t].st \in {"sig", "none"}]_vars
=============================================================================
