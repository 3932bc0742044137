------------------------------- MODULE Sleep -------------------------------
(***************************************************************************)
(* Contract of sleeping, over an abstract time (LT, ordered by Leq).       *)
(*   dl[t]    deadline of a sleeping task, NoDl otherwise                  *)
(*   woken[t] a sleeper was woken by somebody                              *)
(***************************************************************************)
CONSTANTS Tasks, NoDl, Leq(_, _)
VARIABLES dl, woken, now
vars == <<dl, woken, now>>

Asleep(t) == dl[t] # NoDl
Due(t) == Asleep(t) /\ Leq(dl[t], now)

SleepCall(t, d) == /\ ~Asleep(t)
                   /\ dl' = [dl EXCEPT ![t] = d]
                   /\ woken' = [woken EXCEPT ![t] = FALSE] /\ UNCHANGED now
Wake(u) == /\ woken' = [woken EXCEPT ![u] = Asleep(u)]
           /\ UNCHANGED <<dl, now>>
Ret(t) == /\ Due(t) \/ (Asleep(t) /\ woken[t])
          /\ dl' = [dl EXCEPT ![t] = NoDl]
          /\ woken' = [woken EXCEPT ![t] = FALSE] /\ UNCHANGED now
\* the system rests only if nobody is due or woken, with the clock set
\* (arm) not later than any deadline
Rest(arm) == \A t \in Tasks : Asleep(t) => /\ ~Due(t) /\ ~woken[t]
                                           /\ arm # NoDl /\ Leq(arm, dl[t])
=============================================================================
