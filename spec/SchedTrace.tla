---------------------------- MODULE SchedTrace ----------------------------
(***************************************************************************)
(* Recorded executions against the dispatch rule.  Every turn must go to   *)
(* the head of the queue the rule prescribes.                              *)
(***************************************************************************)
EXTENDS TraceIO

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
VARIABLES q, key, prio, np, st, fresh, cur, now, disp
S == INSTANCE Sched WITH Tasks <- TTasks, Prios <- 0..15
sv == <<q, key, prio, np, st, fresh, cur>>
clk == <<now, disp>>

TraceInit == /\ TInit
             /\ q = <<>>
             /\ key = [t \in TTasks |-> 0]
             /\ np = [t \in TTasks |-> IF t <= Traces[tid].n
                                       THEN S!Clamp(Traces[tid].prio[t]) ELSE 8]
             /\ prio = np
             /\ st = [t \in TTasks |-> "stop"]
             /\ fresh = [t \in TTasks |-> FALSE]
             /\ cur = 0
             /\ now = <<0, 0>> /\ disp = <<0, 0>>

\* time on the processor: one unit, plus nanoseconds if a clock charges it;
\* whole seconds (2) count as more units than there are turns, which orders
\* keys like the nanoseconds they stand for
Used == LET d == TSub(now, disp) IN
        CASE Traces[tid].clock = 1 -> 1 + d[2]
          [] Traces[tid].clock = 2 -> 1 + 10000 * d[1]
          [] OTHER -> 1

Keep(t) == \* yields and is dispatched again at once
    /\ cur = t
    /\ LET kk == [key EXCEPT ![t] = @ + Used * prio[t]]
           qq == S!Insert(Tail(q), kk, t) IN
       /\ qq[1] = t /\ key' = kk /\ q' = qq
       /\ prio' = [prio EXCEPT ![t] = np[t]]
    /\ UNCHANGED <<np, st, fresh, cur, now>> /\ disp' = now
Turn(t, f) == fresh[t] = f /\ S!Dispatch(t) /\ disp' = now /\ UNCHANGED now

Step ==
    \/ IsOp("spawn") /\ S!Start(Cur.t, Cur.a) /\ UNCHANGED clk
    \/ IsEv("start") /\ Turn(Cur.t, TRUE)
    \/ IsCall("yield") /\ S!Yield(Cur.t, Used) /\ UNCHANGED clk
    \/ IsOp("yield") /\ Keep(Cur.t)
    \/ IsRet("yield") /\ Turn(Cur.t, FALSE)
    \/ IsCall("waitio") /\ S!Wait(Cur.t) /\ UNCHANGED clk
    \/ IsRet("waitio") /\ Turn(Cur.t, FALSE)
    \/ IsOp("wake") /\ S!Wake(Cur.t, Cur.a) /\ UNCHANGED clk
    \/ IsOp("setprio") /\ cur = Cur.t /\ S!SetPrio(Cur.a, Cur.b) /\ UNCHANGED clk
    \/ IsOp("getprio") /\ cur = Cur.t /\ Cur.r = np[Cur.a] /\ UNCHANGED sv /\ UNCHANGED clk
    \/ (IsEv("done") \/ IsCall("exit")) /\ S!End(Cur.t) /\ UNCHANGED clk
    \/ (IsEv("quiet") \/ IsEv("final") \/ IsEv("sysret")) /\ cur = 0 /\ q = <<>>
       /\ UNCHANGED sv /\ UNCHANGED clk
    \/ IsEv("note") /\ UNCHANGED sv /\ UNCHANGED clk
    \/ IsEv("time") /\ now' = <<Cur.a, Cur.b>> /\ UNCHANGED sv /\ UNCHANGED disp

TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED sv /\ UNCHANGED clk
=============================================================================
