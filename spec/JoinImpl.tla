----------------------------- MODULE JoinImpl -----------------------------
(***************************************************************************)
(* The join algorithm: the target records its joiner; the joiner loops     *)
(* (target stopped?, wake target, wait); the end of a task by return or by *)
(* exit wakes the recorded joiner; a completed join clears the record.     *)
(* Scheduling is arbitrary.                                                *)
(***************************************************************************)
EXTENDS Naturals
CONSTANT Tasks
VARIABLES st,      \* "stop", "run", "wait"
          joiner,  \* recorded in the target
          in       \* target a task is joining, 0 if none
vars == <<st, joiner, in>>

Init == /\ st = [t \in Tasks |-> "stop"]
        /\ joiner = [t \in Tasks |-> 0] /\ in = [t \in Tasks |-> 0]

WakeF(s, u) == IF u # 0 /\ s[u] = "wait" THEN [s EXCEPT ![u] = "run"] ELSE s

Start(u) == st[u] = "stop" /\ st' = [st EXCEPT ![u] = "run"] /\ UNCHANGED <<joiner, in>>
Wait(t) == /\ st[t] = "run" /\ in[t] = 0
           /\ st' = [st EXCEPT ![t] = "wait"] /\ UNCHANGED <<joiner, in>>
Wake(u) == st[u] = "wait" /\ st' = WakeF(st, u) /\ UNCHANGED <<joiner, in>>

Loop(t, u, s) == \* one iteration of the loop; s: states before it
    IF s[u] = "stop"
    THEN /\ in' = [in EXCEPT ![t] = 0]
         /\ joiner' = [joiner EXCEPT ![u] = 0] /\ st' = s
    ELSE /\ st' = [WakeF(s, u) EXCEPT ![t] = "wait"]
         /\ in' = [in EXCEPT ![t] = u]
         /\ joiner' = [joiner EXCEPT ![u] = t]
Join(t, u) == /\ st[t] = "run" /\ in[t] = 0 /\ t # u
              /\ IF joiner[u] # 0 THEN UNCHANGED vars ELSE Loop(t, u, st)
Again(t) == st[t] = "run" /\ in[t] # 0 /\ Loop(t, in[t], st)
End(t) == /\ st[t] = "run" /\ in[t] = 0
          /\ st' = [WakeF(st, joiner[t]) EXCEPT ![t] = "stop"]
          /\ UNCHANGED <<joiner, in>>

Next == \/ \E t \in Tasks : Start(t) \/ Wait(t) \/ Wake(t) \/ Again(t) \/ End(t)
        \/ \E t, u \in Tasks : Join(t, u)
Spec == Init /\ [][Next]_vars /\ \A t \in Tasks : WF_vars(Again(t))

\* a recorded joiner is really joining, so nobody else is ever touched
Record == \A u \in Tasks : joiner[u] # 0 => in[joiner[u]] = u /\ st[joiner[u]] # "stop"
\* a joiner whose target has ended is runnable
NoneStuck == \A t \in Tasks : in[t] # 0 /\ st[in[t]] = "stop" => st[t] = "run"

J == INSTANCE Join WITH live <- [t \in Tasks |-> st[t] # "stop"], joins <- in
Refines == J!Spec
\* unless the target is started again first, the join returns
Returns == \A t, u \in Tasks : (in[t] = u /\ st[u] = "stop") ~> (in[t] = 0 \/ st[u] # "stop")
=============================================================================
