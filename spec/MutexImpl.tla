----------------------------- MODULE MutexImpl -----------------------------
(***************************************************************************)
(* The mutex algorithm of the implementation: a lock flag and a stack of   *)
(* waiters.  Tasks are cooperative: a task runs until it waits, so each    *)
(* action below is what happens between two points where the scheduler may *)
(* switch.  Which runnable task continues is left open (every scheduling   *)
(* policy), and any task may be woken at any time by somebody else.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Tasks, Mutexes, Strays   \* Strays: bound on stray wakeups
None == 0

VARIABLES locker,    \* mutex -> TRUE if locked
          waiters,   \* mutex -> stack of waiting tasks, head first
          run,       \* task -> TRUE if runnable
          pc,        \* task -> mutex it is inside lock() of, or None
          holds,     \* history: mutex -> task between lock and unlock
          strays

vars == <<locker, waiters, run, pc, holds, strays>>

Init == /\ locker = [m \in Mutexes |-> FALSE]
        /\ waiters = [m \in Mutexes |-> <<>>]
        /\ run = [t \in Tasks |-> TRUE]
        /\ pc = [t \in Tasks |-> None]
        /\ holds = [m \in Mutexes |-> None]
        /\ strays = 0

Ready(t) == run[t] /\ pc[t] = None

Lock(t, m) ==
    /\ Ready(t) /\ holds[m] # t
    /\ IF ~locker[m]
       THEN /\ locker' = [locker EXCEPT ![m] = TRUE]
            /\ holds' = [holds EXCEPT ![m] = t]
            /\ UNCHANGED <<waiters, run, pc>>
       ELSE /\ waiters' = [waiters EXCEPT ![m] = <<t>> \o @]
            /\ run' = [run EXCEPT ![t] = FALSE]
            /\ pc' = [pc EXCEPT ![t] = m]
            /\ UNCHANGED <<locker, holds>>
    /\ UNCHANGED strays

\* the re-check after the wait
Recheck(t) == LET m == pc[t] IN
    /\ run[t] /\ m # None
    /\ IF locker[m] \/ Head(waiters[m]) # t
       THEN /\ run' = [run EXCEPT ![t] = FALSE]
            /\ UNCHANGED <<locker, waiters, pc, holds>>
       ELSE /\ locker' = [locker EXCEPT ![m] = TRUE]
            /\ waiters' = [waiters EXCEPT ![m] = Tail(@)]
            /\ pc' = [pc EXCEPT ![t] = None]
            /\ holds' = [holds EXCEPT ![m] = t]
            /\ UNCHANGED run
    /\ UNCHANGED strays

TryLock(t, m) ==
    /\ Ready(t)
    /\ IF locker[m] THEN UNCHANGED vars
       ELSE /\ locker' = [locker EXCEPT ![m] = TRUE]
            /\ holds' = [holds EXCEPT ![m] = t]
            /\ UNCHANGED <<waiters, run, pc, strays>>

Unlock(t, m) ==
    /\ Ready(t) /\ holds[m] = t
    /\ locker' = [locker EXCEPT ![m] = FALSE]
    /\ holds' = [holds EXCEPT ![m] = None]
    /\ run' = IF waiters[m] # <<>> THEN [run EXCEPT ![Head(waiters[m])] = TRUE]
                                   ELSE run
    /\ UNCHANGED <<waiters, pc, strays>>

Stray(t) == /\ strays < Strays /\ ~run[t]
            /\ run' = [run EXCEPT ![t] = TRUE]
            /\ strays' = strays + 1
            /\ UNCHANGED <<locker, waiters, pc, holds>>

Next == \/ \E t \in Tasks, m \in Mutexes : Lock(t, m) \/ TryLock(t, m) \/ Unlock(t, m)
        \/ \E t \in Tasks : Recheck(t) \/ Stray(t)

\* every runnable task gets its turn, and holders release eventually
Fair == /\ \A t \in Tasks : WF_vars(Recheck(t))
        /\ \A t \in Tasks, m \in Mutexes : WF_vars(Unlock(t, m))
Spec == Init /\ [][Next]_vars /\ Fair

C == INSTANCE Mutex WITH owner <- holds, want <- pc
Refines == C!Spec
Exclusive == \A m \in Mutexes : locker[m] <=> holds[m] # None
WaitersOK == \A m \in Mutexes :
    /\ \A t \in Tasks : pc[t] = m <=> \E i \in 1..Len(waiters[m]) : waiters[m][i] = t
    /\ \A i, j \in 1..Len(waiters[m]) : waiters[m][i] = waiters[m][j] => i = j
\* a free mutex with waiters has its heir already runnable
Heir == \A m \in Mutexes : (~locker[m] /\ waiters[m] # <<>>) => run[Head(waiters[m])]
\* hence at quiescence nobody is stuck (the Quiet condition of the contract)
QuietOK == (\A t \in Tasks : ~run[t]) => C!NoneStuck
\* contention is always resolved: a free contended mutex gets held again
Progress == \A m \in Mutexes :
    (~locker[m] /\ waiters[m] # <<>>) ~> locker[m]
=============================================================================
