----------------------------- MODULE SystemsImpl ----------------------------
(***************************************************************************)
(* How the library initialises and finishes task systems: the parts of a   *)
(* system are acquired one by one, any of them may be refused, and what    *)
(* was acquired is given back in the opposite order.  The fault handlers   *)
(* belong to the process: the first system puts the library's in place and *)
(* remembers those of the program, the last puts these back.  Per_ = TRUE  *)
(* is the scheme in which every system remembers and puts back on its own. *)
(***************************************************************************)
EXTENDS Systems

CONSTANTS Per_, Parts     \* number of parts; the last is the fault handling

VARIABLES got,            \* thread -> parts held
          handler,        \* "prog" or "lib"
          saved,          \* what the process-wide (or the thread's) record says
          users,          \* systems with fault handling
          lost            \* a fault did not reach the program

ivars == <<sys, got, handler, saved, users, lost>>

IInit == /\ SysInit
         /\ got = [t \in Threads |-> 0]
         /\ handler = "prog"
         /\ saved = [t \in Threads |-> "none"]
         /\ users = 0
         /\ lost = FALSE

Begin(t) == InitCall(t) /\ UNCHANGED <<got, handler, saved, users, lost>>
Acquire(t) == /\ sys[t] = "init" /\ got[t] < Parts
              /\ got' = [got EXCEPT ![t] = @ + 1]
              /\ IF got[t] + 1 < Parts THEN UNCHANGED <<handler, saved, users>>
                 ELSE /\ users' = users + 1
                      /\ handler' = "lib"
                      /\ saved' = IF Per_ THEN [saved EXCEPT ![t] = handler]
                                  ELSE IF users = 0 THEN [u \in Threads |-> handler]
                                  ELSE saved
              /\ UNCHANGED <<sys, lost>>
Finish(t) == /\ got[t] = Parts /\ InitOk(t)
             /\ UNCHANGED <<got, handler, saved, users, lost>>
\* refused: give back the rest
Refuse(t) == /\ sys[t] = "init" /\ got[t] < Parts
             /\ got' = [got EXCEPT ![t] = 0]
             /\ InitFail(t)
             /\ UNCHANGED <<handler, saved, users, lost>>
Again(t) == InitAgain(t) /\ UNCHANGED <<got, handler, saved, users, lost>>
Run(t) == (RunCall(t) \/ RunRet(t)) /\ UNCHANGED <<got, handler, saved, users, lost>>
BeginFini(t) == FiniCall(t) /\ UNCHANGED <<got, handler, saved, users, lost>>
Release(t) == /\ sys[t] = "fini" /\ got[t] > 0
              /\ got' = [got EXCEPT ![t] = @ - 1]
              /\ IF got[t] < Parts THEN UNCHANGED <<handler, saved, users>>
                 ELSE /\ users' = users - 1
                      /\ handler' = IF Per_ \/ users = 1 THEN saved[t] ELSE handler
                      /\ UNCHANGED saved
              /\ UNCHANGED <<sys, lost>>
EndFini(t) == got[t] = 0 /\ FiniRet(t) /\ UNCHANGED <<got, handler, saved, users, lost>>
\* a fault: the library's handler passes it on to the one remembered
Fault(t) == /\ sys[t] \in {"up", "run", "down"}
            /\ lost' = (lost \/ (handler = "lib" /\ saved[t] # "prog"))
            /\ UNCHANGED <<sys, got, handler, saved, users>>

INext == \E t \in Threads : Begin(t) \/ Acquire(t) \/ Finish(t) \/ Refuse(t) \/ Again(t) \/ Run(t)
                         \/ BeginFini(t) \/ Release(t) \/ EndFini(t) \/ Fault(t)
ISpec == IInit /\ [][INext]_ivars

NothingKept == \A t \in Threads : sys[t] = "down" => got[t] = 0
AllThere == \A t \in Threads : sys[t] \in {"up", "run"} => got[t] = Parts
Restored == Silent => handler = "prog"
NoFaultLost == ~lost
Refines == SysSpec
=============================================================================
