--------------------------- MODULE TaskRefTrace ---------------------------
(***************************************************************************)
(* Recorded executions against the reference contract.  A "free" event is  *)
(* logged when all memory obtained for a task object has been released;    *)
(* it must follow the drop of the last reference immediately.              *)
(***************************************************************************)
EXTENDS TraceIO

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
VARIABLES own, sys, obj, mid    \* mid: an unref call that released the task
R == INSTANCE TaskRef WITH Tasks <- TTasks
rv == <<own, sys, obj>>
TraceInit == TInit /\ R!Init /\ mid = 0

Step ==
    \/ IsOp("create") /\ R!New(Cur.a) /\ UNCHANGED mid
    \/ IsOp("ref") /\ R!Ref(Cur.a) /\ UNCHANGED mid
    \* not the last one: nothing happens inside the call
    \/ IsOp("unref") /\ R!Unref(Cur.a) /\ R!NoneGone' /\ UNCHANGED mid
    \/ IsCall("unref") /\ R!Unref(Cur.a) /\ ~R!NoneGone' /\ mid' = Cur.a
    \/ IsRet("unref") /\ mid = Cur.a /\ R!NoneGone /\ UNCHANGED rv /\ mid' = 0
    \/ IsOp("spawn") /\ R!Start(Cur.a) /\ UNCHANGED mid
    \/ (IsEv("done") \/ IsCall("exit")) /\ R!End(Cur.t) /\ UNCHANGED mid
    \/ IsEv("free") /\ R!Release(Cur.t) /\ UNCHANGED mid
    \* what was obtained is readable: the states read are those of the task
    \/ /\ More /\ \/ Cur.e \in {"start", "time", "quiet", "final", "sysret"}
                  \/ Cur.o \in {"yield", "waitio", "wake", "sleep", "usleep", "dcheck", "join"}
       /\ R!NoneGone /\ mid = 0 /\ UNCHANGED rv /\ UNCHANGED mid
    \/ IsEv("note") /\ R!NoneGone /\ UNCHANGED rv /\ UNCHANGED mid

TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED rv /\ UNCHANGED mid
=============================================================================
