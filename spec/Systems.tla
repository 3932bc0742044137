------------------------------ MODULE Systems -------------------------------
(***************************************************************************)
(* Task systems of several threads.  Each thread has its own: it is up or  *)
(* down, and only its own calls change that.  What a thread holds          *)
(* (descriptors, memory) and what the process had before (fault handlers,  *)
(* signal stack) are given back when it goes down.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Threads
VARIABLES sys          \* thread -> "down", "init", "up", "run", "fini"

SysInit == sys = [t \in Threads |-> "down"]

\* initialising from "down" may fail only for want of resources
InitCall(t) == sys[t] = "down" /\ sys' = [sys EXCEPT ![t] = "init"]
InitOk(t) == sys[t] = "init" /\ sys' = [sys EXCEPT ![t] = "up"]
InitFail(t) == sys[t] = "init" /\ sys' = [sys EXCEPT ![t] = "down"]
\* initialising again fails and changes nothing
InitAgain(t) == sys[t] \in {"up", "run"} /\ UNCHANGED sys
RunCall(t) == sys[t] = "up" /\ sys' = [sys EXCEPT ![t] = "run"]
RunRet(t) == sys[t] = "run" /\ sys' = [sys EXCEPT ![t] = "up"]
FiniCall(t) == sys[t] = "up" /\ sys' = [sys EXCEPT ![t] = "fini"]
FiniRet(t) == sys[t] = "fini" /\ sys' = [sys EXCEPT ![t] = "down"]

SysNext == \E t \in Threads : InitCall(t) \/ InitOk(t) \/ InitFail(t) \/ InitAgain(t)
                           \/ RunCall(t) \/ RunRet(t) \/ FiniCall(t) \/ FiniRet(t)
SysSpec == SysInit /\ [][SysNext]_sys

\* nobody is up or on the way
Silent == \A t \in Threads : sys[t] = "down"
=============================================================================
