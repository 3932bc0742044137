------------------------------- MODULE Join -------------------------------
(***************************************************************************)
(* Contract of joining.                                                    *)
(*   live[t]   started and not ended                                       *)
(*   joins[t]  the task t is blocked joining, 0 if none                    *)
(***************************************************************************)
EXTENDS Naturals
CONSTANT Tasks
VARIABLES live, joins
vars == <<live, joins>>

Init == live = [t \in Tasks |-> FALSE] /\ joins = [t \in Tasks |-> 0]
Joined(u) == \E t \in Tasks : joins[t] = u

Start(u) == live' = [live EXCEPT ![u] = TRUE] /\ UNCHANGED joins
End(u) == live[u] /\ joins[u] = 0 /\ live' = [live EXCEPT ![u] = FALSE] /\ UNCHANGED joins

\* at once: the task is not running (and possibly was joined by somebody
\* who has not continued yet)
JoinNow(t, u) == joins[t] = 0 /\ ~live[u] /\ UNCHANGED vars
JoinFail(t, u) == joins[t] = 0 /\ Joined(u) /\ UNCHANGED vars
JoinCall(t, u) == /\ joins[t] = 0 /\ live[t] /\ live[u] /\ ~Joined(u)
                  /\ joins' = [joins EXCEPT ![t] = u] /\ UNCHANGED live
JoinRet(t) == /\ joins[t] # 0 /\ ~live[joins[t]]
              /\ joins' = [joins EXCEPT ![t] = 0] /\ UNCHANGED live

NoneStuck == \A t \in Tasks : joins[t] # 0 => live[joins[t]]
Quiet == NoneStuck /\ UNCHANGED vars

Next == \/ \E u \in Tasks : Start(u) \/ End(u)
        \/ \E t, u \in Tasks : t # u /\ (JoinNow(t, u) \/ JoinFail(t, u) \/ JoinCall(t, u))
        \/ \E t \in Tasks : JoinRet(t)
Spec == Init /\ [][Next]_vars
OneJoiner == \A t, u \in Tasks : t # u /\ joins[t] # 0 => joins[t] # joins[u]
=============================================================================
