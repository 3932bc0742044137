------------------------------ MODULE SleepGen ------------------------------
EXTENDS SleepImpl, Integers, Sequences, TLC, Json
VARIABLE hist
Depth == 50
Note(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
GNext == \/ \E t \in Tasks : Resume(t) /\ UNCHANGED hist
         \/ \E t \in Tasks, d \in Durs : Sleep(t, d) /\ Note(<<t, "sleep", d>>)
         \/ \E t, u \in Tasks : t # u /\ st[t] = "run" /\ dl[t] = NoDl /\ st[u] = "wait"
               /\ Wake(u) /\ Note(<<t, "wake", u>>)
         \/ Fire /\ UNCHANGED hist
         \/ (\E t \in Tasks : dl[t] # NoDl) /\ Tick /\ Note(<<0, "tick", 0>>)
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
\* tours: one sequence per transition of the graph without the history
Rel(d) == IF d = NoDl THEN 99 ELSE IF d < now THEN -1 ELSE d - now
TourView == <<st, [t \in Tasks |-> Rel(dl[t])], IF fired THEN 99 ELSE Rel(arm), ent, woken>>
Tour == hist' = hist \/ PrintT(<<"GEN", ToJson(hist')>>)
=============================================================================
