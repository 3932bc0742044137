----------------------------- MODULE SchedGen -----------------------------
(* Random behaviours of the scheduler, as per-task programs of steps.      *)
EXTENDS Sched, TLC, Json
VARIABLE hist
Depth == 70
Note(x) == hist' = Append(hist, x)
GInit == Init /\ hist = <<>>
GNext ==
    \/ \E t \in Tasks : Dispatch(t) /\ Note(<<t, "turn", 0>>)
    \/ cur = 0 /\ q = <<>> /\ (\A v \in Tasks : st[v] = "stop") /\ \E u \in Tasks :
          st[u] = "stop" /\ Start(0, u) /\ Note(<<0, "spawn", u>>)
    \/ /\ cur # 0
       /\ \/ Yield(cur, 1) /\ Note(<<cur, "yield", 0>>)
          \/ (\E u \in Tasks : u # cur /\ st[u] = "run") /\ Wait(cur) /\ Note(<<cur, "waitio", 0>>)
          \/ (\A v \in Tasks \ {cur} : st[v] # "wait" \/ \E w \in Tasks \ {cur} : st[w] = "run")
             /\ End(cur) /\ Note(<<cur, "ret", 0>>)
          \/ \E u \in Tasks : Start(cur, u) /\ Note(<<cur, "spawn", u>>)
          \/ \E u \in Tasks : Wake(cur, u) /\ Note(<<cur, "wake", u>>)
          \/ \E u \in Tasks, p \in Prios : SetPrio(u, p) /\ Note(<<cur, "setprio", u, p>>)
Emit == TLCGet("level") < Depth \/ PrintT(<<"GEN", ToJson(hist)>>)
=============================================================================
