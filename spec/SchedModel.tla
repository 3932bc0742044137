---------------------------- MODULE SchedModel ----------------------------
(***************************************************************************)
(* Sched under every environment.  Only differences of queued keys matter  *)
(* once the system runs, so a common offset is removed (Shift) before      *)
(* anything else happens; this keeps the state space finite.               *)
(***************************************************************************)
EXTENDS Sched
CONSTANT Fixed     \* TRUE: started tasks only yield (starvation freedom)
VARIABLE on
mvars == <<vars, on>>

MInit == Init /\ on = FALSE
Outside == /\ ~on /\ \E u \in Tasks, p \in Prios :
               /\ st[u] = "stop"
               /\ q' = Insert(q, [key EXCEPT ![u] = p], u)
               /\ key' = [key EXCEPT ![u] = p]
               /\ prio' = [prio EXCEPT ![u] = p] /\ np' = [np EXCEPT ![u] = p]
               /\ st' = [st EXCEPT ![u] = "run"] /\ fresh' = [fresh EXCEPT ![u] = TRUE]
               /\ UNCHANGED cur
           /\ UNCHANGED on
Run == ~on /\ q # <<>> /\ on' = TRUE /\ UNCHANGED vars
High == on /\ MinKey(q, key) > 0
Shift == /\ High
         /\ key' = [t \in Tasks |-> IF st[t] = "run" THEN key[t] - MinKey(q, key) ELSE key[t]]
         /\ UNCHANGED <<q, prio, np, st, fresh, cur, on>>
Turn == on /\ ~High /\ \E t \in Tasks : Dispatch(t) /\ UNCHANGED on
Yields == on /\ ~High /\ \E t \in Tasks : Yield(t, 1) /\ UNCHANGED on
Others == on /\ ~High /\ ~Fixed /\ UNCHANGED on /\
            \/ \E t \in Tasks : Wait(t) \/ End(t)
            \/ \E u \in Tasks : cur # 0 /\ (Start(cur, u) \/ Wake(cur, u))
            \/ \E u \in Tasks, p \in Prios : cur # 0 /\ SetPrio(u, p)
            \/ \E u \in Tasks : cur = 0 /\ q = <<>> /\ st[u] = "wait" /\ Wake(0, u)
MNext == Outside \/ Run \/ Shift \/ Turn \/ Yields \/ Others

MSpec == MInit /\ [][MNext]_mvars /\ WF_mvars(MNext)

Refines == C!Spec
\* every runnable task gets a turn
Turns == \A t \in Tasks : (on /\ st[t] = "run") ~> (cur = t)
=============================================================================
