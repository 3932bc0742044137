------------------------------- MODULE Sched -------------------------------
(***************************************************************************)
(* The dispatch rule: run queue ordered by virtual time (key), first come  *)
(* first served among equals.  The executing task stays in the queue, at   *)
(* its head.  Keys of queued tasks matter only relative to each other, so  *)
(* the model checker works with keys shifted to a minimum of zero while    *)
(* the system runs (Norm).                                                 *)
(*   q       the run queue, a sequence of tasks                            *)
(*   key     virtual time of queued tasks; priority of waiting ones        *)
(*   prio    priority a task was queued with, np the last one set          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Tasks, Prios
VARIABLES q, key, prio, np, st, fresh, cur
vars == <<q, key, prio, np, st, fresh, cur>>

Clamp(p) == IF p < 0 THEN 0 ELSE IF p > 15 THEN 15 ELSE p

MinKey(qq, kk) == IF qq = <<>> THEN 0 ELSE kk[qq[1]]
\* position behind all entries with a key not larger
RECURSIVE Pos(_, _, _, _)
Pos(qq, kk, x, i) == IF i > Len(qq) \/ kk[qq[i]] > x THEN i ELSE Pos(qq, kk, x, i + 1)
Insert(qq, kk, t) == LET i == Pos(qq, kk, kk[t], 1)
                     IN SubSeq(qq, 1, i - 1) \o <<t>> \o SubSeq(qq, i, Len(qq))

Init == /\ q = <<>>
        /\ key = [t \in Tasks |-> 0]
        /\ prio = [t \in Tasks |-> 8] /\ np = [t \in Tasks |-> 8]
        /\ st = [t \in Tasks |-> "stop"]
        /\ fresh = [t \in Tasks |-> FALSE]
        /\ cur = 0

Enter(u, k) == LET kk == [key EXCEPT ![u] = k] IN
    /\ key' = kk /\ q' = Insert(q, kk, u)
    /\ prio' = [prio EXCEPT ![u] = np[u]]
    /\ st' = [st EXCEPT ![u] = "run"]

Start(by, u) ==
    /\ cur = by
    /\ IF st[u] # "stop" THEN UNCHANGED vars
       ELSE /\ Enter(u, np[u] + (IF by = 0 THEN 0 ELSE MinKey(q, key)))
            /\ fresh' = [fresh EXCEPT ![u] = TRUE]
            /\ UNCHANGED <<np, cur>>

Wake(by, u) ==
    /\ cur = by
    /\ IF st[u] # "wait" THEN st[u] = "run" /\ UNCHANGED vars
       ELSE Enter(u, key[u] + MinKey(q, key)) /\ UNCHANGED <<np, fresh, cur>>

SetPrio(u, p) == /\ np' = [np EXCEPT ![u] = Clamp(p)]
                 /\ UNCHANGED <<q, key, prio, st, fresh, cur>>

\* run: time on the processor counted by the charging clock; 1 without one
Yield(t, run) == /\ cur = t
            /\ LET kk == [key EXCEPT ![t] = @ + run * prio[t]] IN
               /\ key' = kk
               /\ q' = Insert(Tail(q), kk, t)
               /\ prio' = [prio EXCEPT ![t] = np[t]]
            /\ cur' = 0 /\ UNCHANGED <<np, st, fresh>>

Wait(t) == /\ cur = t
           /\ q' = Tail(q)
           /\ key' = [key EXCEPT ![t] = np[t]]
           /\ st' = [st EXCEPT ![t] = "wait"]
           /\ cur' = 0 /\ UNCHANGED <<prio, np, fresh>>

End(t) == /\ cur = t
          /\ q' = Tail(q)
          /\ st' = [st EXCEPT ![t] = "stop"]
          /\ cur' = 0 /\ UNCHANGED <<key, prio, np, fresh>>

\* the only freedom is the environment's: the next task is determined
Dispatch(t) == /\ cur = 0 /\ q # <<>> /\ q[1] = t
               /\ cur' = t
               /\ fresh' = [fresh EXCEPT ![t] = FALSE]
               /\ UNCHANGED <<q, key, prio, np, st>>

-----------------------------------------------------------------------------
Sorted == \A i \in 1..Len(q) - 1 : key[q[i]] <= key[q[i + 1]]
CurFirst == cur # 0 => q # <<>> /\ q[1] = cur
Queue == /\ {q[i] : i \in 1..Len(q)} = {t \in Tasks : st[t] = "run"}
         /\ Len(q) = Cardinality({t \in Tasks : st[t] = "run"})
\* nobody is more than the largest priority value behind the front: a task
\* of priority p is overtaken at most 15 / p + 1 times by any one other task
Spread == \A i \in 1..Len(q) : key[q[i]] <= MinKey(q, key) + 15

C == INSTANCE Task
=============================================================================
