------------------------------ MODULE CondGen ------------------------------
(* Random behaviours of the condition variable algorithm.                  *)
EXTENDS CondImpl, TLC, Json

VARIABLE hist
Depth == 40
Note(t, o) == hist' = Append(hist, <<t, o>>)

GInit == Init /\ hist = <<>>
GNext ==
    \/ \E t \in Tasks :
        \/ Idle(t) /\ (M!LockNow(t, Mx) \/ M!LockCall(t, Mx)) /\ UNCHANGED cvars /\ Note(t, "lock")
        \/ Idle(t) /\ M!Unlock(t, Mx) /\ UNCHANGED cvars /\ Note(t, "unlock")
        \/ st[t] = "idle" /\ M!LockRet(t, Mx) /\ UNCHANGED cvars /\ UNCHANGED hist
        \/ Wait(t, TRUE) /\ Note(t, "ctimed")
        \/ Wait(t, FALSE) /\ Note(t, "cwait")
        \/ Expire(t) /\ Note(t, "expire")
        \/ Leave(t) /\ UNCHANGED hist
        \/ Relock(t) /\ UNCHANGED hist
        \/ Idle(t) /\ Signal /\ Note(t, "csig")
        \/ Idle(t) /\ Broadcast /\ Note(t, "cbc")
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
\* tours: one sequence per transition of the graph without the history
TourView == vars
Tour == hist' = hist \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
