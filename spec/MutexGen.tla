----------------------------- MODULE MutexGen -----------------------------
(* Random behaviours of the mutex algorithm, printed as call sequences.    *)
EXTENDS MutexImpl, Json, IOUtils

VARIABLE hist
Depth == 40

Note(t, o, m) == hist' = Append(hist, <<t, o, m>>)
GInit == Init /\ hist = <<>>
GNext == \/ \E t \in Tasks, m \in Mutexes :
              \/ Lock(t, m) /\ Note(t, "lock", m)
              \/ TryLock(t, m) /\ Note(t, "trylock", m)
              \/ Unlock(t, m) /\ Note(t, "unlock", m)
         \/ \E t \in Tasks : Recheck(t) /\ Note(t, "turn", 0)
         \/ \E t, u \in Tasks : t # u /\ Ready(u) /\ Stray(t) /\ Note(u, "wake", t)
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
\* tours: one sequence per transition of the graph without the history
TourView == <<locker, waiters, run, pc, holds>>
Tour == hist' = hist \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
