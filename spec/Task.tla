------------------------------- MODULE Task -------------------------------
(***************************************************************************)
(* Contract of the task life cycle, independent of the dispatch order.     *)
(*   st[t]    "stop", "run" (runnable or running) or "wait"                *)
(*   fresh[t] started, entry function not entered yet                      *)
(*   cur      the task executing, 0 when control is with the system        *)
(***************************************************************************)
EXTENDS Naturals

CONSTANT Tasks
VARIABLES st, fresh, cur
vars == <<st, fresh, cur>>

Init == /\ st = [t \in Tasks |-> "stop"]
        /\ fresh = [t \in Tasks |-> FALSE]
        /\ cur = 0

TypeOK == /\ st \in [Tasks -> {"stop", "run", "wait"}]
          /\ fresh \in [Tasks -> BOOLEAN]
          /\ cur \in Tasks \cup {0}

\* by = 0: from outside, between two runs of the system
Start(by, u) ==
    /\ cur = by
    /\ IF st[u] = "stop"
       THEN /\ st' = [st EXCEPT ![u] = "run"]
            /\ fresh' = [fresh EXCEPT ![u] = TRUE]
       ELSE UNCHANGED <<st, fresh>>
    /\ UNCHANGED cur

Begin(u) == /\ cur = 0 /\ st[u] = "run" /\ fresh[u]
            /\ cur' = u
            /\ fresh' = [fresh EXCEPT ![u] = FALSE]
            /\ UNCHANGED st

Yield(t) == cur = t /\ t # 0 /\ cur' = 0 /\ UNCHANGED <<st, fresh>>

Resume(t) == /\ cur = 0 /\ st[t] = "run" /\ ~fresh[t]
             /\ cur' = t /\ UNCHANGED <<st, fresh>>

Wait(t) == /\ cur = t /\ t # 0
           /\ st' = [st EXCEPT ![t] = "wait"]
           /\ cur' = 0 /\ UNCHANGED fresh

Wake(by, u) == /\ cur = by /\ st[u] # "stop"
               /\ st' = [st EXCEPT ![u] = "run"]
               /\ UNCHANGED <<fresh, cur>>

\* a timer or descriptor, while control is with the system
EnvWake(u) == cur = 0 /\ st[u] = "wait" /\ Wake(0, u)

End(t) == /\ cur = t /\ t # 0
          /\ st' = [st EXCEPT ![t] = "stop"]
          /\ cur' = 0 /\ UNCHANGED fresh

AnyRun == \E t \in Tasks : st[t] = "run"
AnyWait == \E t \in Tasks : st[t] = "wait"
\* the system sleeps only when nothing can run and something waits
Idle == cur = 0 /\ ~AnyRun /\ AnyWait /\ UNCHANGED vars
\* running the system returns only when nothing is left
SysRet == cur = 0 /\ ~AnyRun /\ ~AnyWait /\ UNCHANGED vars

Next == \/ \E b \in Tasks \cup {0}, u \in Tasks : Start(b, u) \/ Wake(b, u)
        \/ \E t \in Tasks : Begin(t) \/ Yield(t) \/ Resume(t) \/ Wait(t) \/ End(t)
Spec == Init /\ [][Next]_vars

FreshRuns == \A t \in Tasks : fresh[t] => st[t] = "run" /\ cur # t
CurRuns == cur # 0 => st[cur] = "run"
=============================================================================
