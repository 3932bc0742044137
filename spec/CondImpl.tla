----------------------------- MODULE CondImpl -----------------------------
(***************************************************************************)
(* The condition variable algorithm of the implementation: waiters in a    *)
(* doubly linked list with their nodes on the waiters' stacks; signalling  *)
(* takes the head, clears the node's task and advances the head; a waiter  *)
(* that timed out takes the mutex back and unlinks its node if its task    *)
(* was not cleared meanwhile.  The mutex is represented by its contract.   *)
(* One condition, one mutex; each waiter is timed or not.                  *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, Sequences

CONSTANTS Tasks, Mutexes, Conds
None == 0
Mx == CHOOSE m \in Mutexes : TRUE
Cv == CHOOSE c \in Conds : TRUE

VARIABLES owner, want,
          head,             \* first waiter
          nx, pv,           \* links of each task's node
          ntask,            \* TRUE while the node still names its task
          st,               \* "idle", "wait" (in the wait loop), "lock" (relocking)
          timed, exp
vars == <<owner, want, head, nx, pv, ntask, st, timed, exp>>
M == INSTANCE Mutex

Init == /\ M!Init
        /\ head = None
        /\ nx = [t \in Tasks |-> None] /\ pv = [t \in Tasks |-> None]
        /\ ntask = [t \in Tasks |-> FALSE]
        /\ st = [t \in Tasks |-> "idle"]
        /\ timed = [t \in Tasks |-> FALSE]
        /\ exp = [t \in Tasks |-> FALSE]

cvars == <<head, nx, pv, ntask, st, timed, exp>>
Idle(t) == st[t] = "idle" /\ want[t] = None

LockOps == \E t \in Tasks :
    \/ Idle(t) /\ (M!LockNow(t, Mx) \/ M!LockCall(t, Mx) \/ M!Unlock(t, Mx)) /\ UNCHANGED cvars
    \/ st[t] = "idle" /\ M!LockRet(t, Mx) /\ UNCHANGED cvars

Wait(t, tm) ==
    /\ Idle(t) /\ owner[Mx] = t
    /\ nx' = [nx EXCEPT ![t] = head]
    /\ pv' = [p \in Tasks |-> IF p = t THEN None
                              ELSE IF p = head THEN t ELSE pv[p]]
    /\ head' = t
    /\ ntask' = [ntask EXCEPT ![t] = TRUE]
    /\ owner' = [owner EXCEPT ![Mx] = None]
    /\ st' = [st EXCEPT ![t] = "wait"]
    /\ timed' = [timed EXCEPT ![t] = tm]
    /\ exp' = [exp EXCEPT ![t] = FALSE]
    /\ UNCHANGED want

Expire(t) == /\ st[t] # "idle" /\ timed[t] /\ ~exp[t]
             /\ exp' = [exp EXCEPT ![t] = TRUE]
             /\ UNCHANGED <<owner, want, head, nx, pv, ntask, st, timed>>

\* the wait loop ends
Leave(t) == /\ st[t] = "wait" /\ (~ntask[t] \/ (timed[t] /\ exp[t]))
            /\ st' = [st EXCEPT ![t] = "lock"]
            /\ UNCHANGED <<owner, want, head, nx, pv, ntask, timed, exp>>

\* the mutex is taken back; an unsignalled timed waiter unlinks itself
Relock(t) ==
    /\ st[t] = "lock" /\ owner[Mx] = None
    /\ owner' = [owner EXCEPT ![Mx] = t]
    /\ st' = [st EXCEPT ![t] = "idle"]
    /\ IF timed[t] /\ ntask[t]
       THEN /\ nx' = [u \in Tasks |-> IF pv[t] = u THEN nx[t]
                                      ELSE IF u = t THEN None ELSE nx[u]]
            /\ pv' = [u \in Tasks |-> IF nx[t] = u THEN pv[t]
                                      ELSE IF u = t THEN None ELSE pv[u]]
            /\ head' = IF head = t THEN nx[t] ELSE head
            /\ ntask' = [ntask EXCEPT ![t] = FALSE]
       ELSE /\ nx' = [nx EXCEPT ![t] = None] /\ pv' = [pv EXCEPT ![t] = None]
            /\ UNCHANGED <<head, ntask>>
    /\ timed' = [timed EXCEPT ![t] = FALSE]
    /\ exp' = [exp EXCEPT ![t] = FALSE]
    /\ UNCHANGED want

Signal == /\ IF head = None THEN UNCHANGED <<head, nx, pv, ntask>>
             ELSE /\ ntask' = [ntask EXCEPT ![head] = FALSE]
                  /\ head' = nx[head]
                  /\ pv' = IF nx[head] # None THEN [pv EXCEPT ![nx[head]] = None] ELSE pv
                  /\ UNCHANGED nx
          /\ UNCHANGED <<owner, want, st, timed, exp>>

RECURSIVE Chain(_, _)
Chain(h, n) == IF h = None \/ n = 0 THEN <<>> ELSE <<h>> \o Chain(nx[h], n - 1)
List == Chain(head, Cardinality(Tasks) + 1)
InList == {List[i] : i \in 1..Len(List)}

Broadcast == /\ ntask' = [t \in Tasks |-> ntask[t] /\ t \notin InList]
             /\ head' = None
             /\ UNCHANGED <<owner, want, nx, pv, st, timed, exp>>

Next == \/ LockOps
        \/ \E t \in Tasks : (\E b \in BOOLEAN : Wait(t, b)) \/ Expire(t) \/ Leave(t) \/ Relock(t)
        \/ Signal \/ Broadcast
Spec == Init /\ [][Next]_vars

\* the list holds exactly the waiters nobody chose, each once, links consistent
ListOK == /\ Len(List) <= Cardinality(Tasks)
          /\ InList = {t \in Tasks : st[t] # "idle" /\ ntask[t]}
          /\ Len(List) = Cardinality(InList)
          /\ \A i \in 1..Len(List) :
                pv[List[i]] = IF i = 1 THEN None ELSE List[i-1]

acw == [t \in Tasks |->
          IF st[t] = "idle"
          THEN [c |-> 0, m |-> 0, st |-> "none", timed |-> FALSE, exp |-> FALSE]
          ELSE [c |-> Cv, m |-> Mx, st |-> IF ntask[t] THEN "wait" ELSE "sig",
                timed |-> timed[t], exp |-> exp[t]]]
C == INSTANCE Cond WITH cw <- acw
Refines == C!Spec
=============================================================================
