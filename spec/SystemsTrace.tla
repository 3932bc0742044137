---------------------------- MODULE SystemsTrace ----------------------------
(***************************************************************************)
(* Recorded executions of threads that initialise, run and finish task     *)
(* systems.  At calls and returns of initialising and finishing the number *)
(* of descriptors (b) and memory blocks (c) the thread holds is recorded.  *)
(***************************************************************************)
EXTENDS TraceIO, Systems

VARIABLES work,        \* thread -> <<steps done, steps to do>> per task
          held,        \* thread -> what it held when the last call began
          peril        \* thread -> a resource may be refused during the call

tv == <<sys, work, held, peril>>
T == Cur.a

TraceInit == /\ TInit /\ SysInit
             /\ work = [t \in Threads |-> <<>>]
             /\ held = [t \in Threads |-> <<0, 0>>]
             /\ peril = [t \in Threads |-> FALSE]

CallInit == /\ IsCall("init")
            /\ held' = [held EXCEPT ![T] = <<Cur.b, Cur.c>>]
            /\ peril' = [peril EXCEPT ![T] = Cur.r = 1]
            /\ IF sys[T] = "down" THEN InitCall(T) ELSE InitAgain(T)
            /\ UNCHANGED work
RetInit == /\ IsRet("init")
           /\ IF sys[T] = "init"
              THEN IF Cur.r = 0 THEN InitOk(T)
                   ELSE Cur.r = -1 /\ peril[T] /\ InitFail(T) /\ <<Cur.b, Cur.c>> = held[T]
              ELSE Cur.r = -1 /\ InitAgain(T) /\ <<Cur.b, Cur.c>> = held[T]
           /\ UNCHANGED <<work, held, peril>>

CallRun == /\ IsCall("run") /\ RunCall(T)
           /\ work' = [work EXCEPT ![T] = [i \in 1..Cur.b |-> <<0, Cur.x[i]>>]]
           /\ UNCHANGED <<held, peril>>
\* every task does its steps in order
TaskStep == /\ IsEv("step") /\ sys[T] = "run"
            /\ Cur.b \in DOMAIN work[T]
            /\ Cur.c = work[T][Cur.b][1] + 1 /\ Cur.c <= work[T][Cur.b][2]
            /\ work' = [work EXCEPT ![T][Cur.b][1] = Cur.c]
            /\ UNCHANGED <<sys, held, peril>>
\* and the run ends when all have
RetRun == /\ IsRet("run") /\ RunRet(T)
          /\ \A i \in DOMAIN work[T] : work[T][i][1] = work[T][i][2]
          /\ UNCHANGED <<work, held, peril>>

CallFini == IsCall("fini") /\ FiniCall(T) /\ UNCHANGED <<work, held, peril>>
RetFini == /\ IsRet("fini") /\ FiniRet(T) /\ Cur.b = 0 /\ Cur.c = 0
           /\ UNCHANGED <<work, held, peril>>

\* a fault reaches the handler of the program once, in whatever state
CallFault == IsCall("fault") /\ UNCHANGED tv
RetFault == IsRet("fault") /\ Cur.r = 1 /\ UNCHANGED tv

\* b: the fault handlers, c: the signal stack are those of the program
Peek == /\ IsOp("peek") /\ UNCHANGED tv
        /\ (IF Silent THEN Cur.b = 1 ELSE TRUE)
        /\ (IF sys[T] = "down" THEN Cur.c = 1 ELSE TRUE)
After == IsOp("after") /\ UNCHANGED tv /\ (IF Silent THEN Cur.a = 1 ELSE TRUE)
Final == IsEv("final") /\ UNCHANGED tv

Step == CallInit \/ RetInit \/ CallRun \/ TaskStep \/ RetRun \/ CallFini \/ RetFini
        \/ CallFault \/ RetFault \/ Peek \/ After \/ Final
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED tv)
=============================================================================
