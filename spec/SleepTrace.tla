----------------------------- MODULE SleepTrace -----------------------------
(***************************************************************************)
(* Recorded executions of sleep and usleep under a controlled clock.       *)
(***************************************************************************)
EXTENDS TraceIO

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
None == <<0, 0>>
VARIABLES dl, woken, now
S == INSTANCE Sleep WITH Tasks <- TTasks, NoDl <- None, Leq <- TLeq
sv == <<dl, woken, now>>

TraceInit == /\ TInit /\ now = None
             /\ dl = [t \in TTasks |-> None] /\ woken = [t \in TTasks |-> FALSE]

IsMs == Cur.o = "sleep"
Unit == IF IsMs THEN 1000000 ELSE 1000           \* nanoseconds
Per == IF IsMs THEN 1000 ELSE 1000000            \* units per second
Deadline == TAdd(now, Cur.a, Cur.b * Unit)
\* time left, in whole units, as <<seconds, units>>
Left(t) == IF TLeq(dl[t], now) THEN <<0, 0>>
           ELSE LET d == TSub(dl[t], now) IN <<d[1], d[2] \div Unit>>
Zero == Cur.a = 0 /\ Cur.b = 0
Sleeps == More /\ Cur.o \in {"sleep", "usleep"}

Step ==
    \/ Sleeps /\ Cur.e = "op" /\ Zero /\ Cur.c = 0 /\ Cur.r = 0 /\ ~S!Asleep(Cur.t) /\ UNCHANGED sv
    \/ Sleeps /\ Cur.e = "call" /\ ~Zero /\ S!SleepCall(Cur.t, Deadline)
    \/ Sleeps /\ Cur.e = "ret" /\ <<Cur.c, Cur.r>> = Left(Cur.t) /\ S!Ret(Cur.t)
    \/ IsOp("wake") /\ S!Wake(Cur.a)
    \/ (IsEv("quiet") \/ IsEv("final"))
       /\ S!Rest(IF Cur.a = 1 THEN <<Cur.b, Cur.c>> ELSE None) /\ UNCHANGED sv
    \/ IsEv("time") /\ now' = <<Cur.a, Cur.b>> /\ UNCHANGED <<dl, woken>>
    \/ More /\ Cur.e \in {"start", "done", "sysret", "note"} /\ UNCHANGED sv
    \/ More /\ Cur.o \in {"yield", "spawn", "exit"} /\ ~(Cur.t # 0 /\ S!Asleep(Cur.t)) /\ UNCHANGED sv

TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED sv
=============================================================================
