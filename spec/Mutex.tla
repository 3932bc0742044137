------------------------------- MODULE Mutex -------------------------------
(***************************************************************************)
(* Contract of the task mutex as its users see it.                         *)
(*                                                                         *)
(* A call either completes at once ("Now" actions) or begins to block      *)
(* ("Call") and completes later ("Ret").  Calls that do not have to wait   *)
(* are atomic: no other task runs during them.  Quiet says that nothing is *)
(* runnable; it is the point at which a lost wakeup becomes visible.       *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets

CONSTANTS Tasks, Mutexes
None == 0
ASSUME None \notin Tasks

VARIABLES owner,   \* mutex -> task holding it, or None
          want     \* task -> mutex it is blocked on, or None (mutexes are 1..)

vars == <<owner, want>>

TypeOK == /\ owner \in [Mutexes -> Tasks \cup {None}]
          /\ want \in [Tasks -> Mutexes \cup {None}]

Init == /\ owner = [m \in Mutexes |-> None]
        /\ want = [t \in Tasks |-> None]

Free(t) == want[t] = None

LockNow(t, m) == /\ Free(t) /\ owner[m] = None
                 /\ owner' = [owner EXCEPT ![m] = t]
                 /\ UNCHANGED want

\* a lock call waits only while somebody else holds the mutex
LockCall(t, m) == /\ Free(t) /\ owner[m] \notin {None, t}
                  /\ want' = [want EXCEPT ![t] = m]
                  /\ UNCHANGED owner

LockRet(t, m) == /\ want[t] = m /\ m # None /\ owner[m] = None
                 /\ owner' = [owner EXCEPT ![m] = t]
                 /\ want' = [want EXCEPT ![t] = None]

TryOk(t, m) == Free(t) /\ owner[m] = None
               /\ owner' = [owner EXCEPT ![m] = t] /\ UNCHANGED want
TryFail(t, m) == Free(t) /\ owner[m] # None /\ UNCHANGED vars

Unlock(t, m) == /\ Free(t) /\ owner[m] = t
                /\ owner' = [owner EXCEPT ![m] = None]
                /\ UNCHANGED want

\* waking a task that waits for a mutex has no visible effect
Stray(t) == UNCHANGED vars

\* nobody is left behind on a free mutex
NoneStuck == \A t \in Tasks : want[t] # None => owner[want[t]] # None
Quiet == NoneStuck /\ UNCHANGED vars

Next == \E t \in Tasks, m \in Mutexes :
            \/ LockNow(t, m) \/ LockCall(t, m) \/ LockRet(t, m)
            \/ TryOk(t, m) \/ TryFail(t, m) \/ Unlock(t, m)

Spec == Init /\ [][Next]_vars

\* nobody waits for what it holds, and a holder is never displaced
OwnNotWant == \A t \in Tasks : want[t] # None => owner[want[t]] # t
NoTheft == [][\A m \in Mutexes : owner[m] # None =>
                 owner'[m] \in {owner[m], None}]_vars
=============================================================================
