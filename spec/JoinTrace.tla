----------------------------- MODULE JoinTrace -----------------------------
(***************************************************************************)
(* Recorded executions against the join contract.  A plain wait may end    *)
(* only if the task was woken explicitly, or because somebody is joining   *)
(* it (joining wakes the joined task).                                     *)
(***************************************************************************)
EXTENDS TraceIO

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
VARIABLES live, joins, wt, woken
J == INSTANCE Join WITH Tasks <- TTasks
jv == <<live, joins>>
wv == <<wt, woken>>

TraceInit == /\ TInit /\ J!Init
             /\ wt = [t \in TTasks |-> FALSE] /\ woken = [t \in TTasks |-> FALSE]

Wakes(u) == woken' = [woken EXCEPT ![u] = wt[u] \/ @]

Step ==
    \/ IsOp("spawn") /\ UNCHANGED wv /\
         (IF live[Cur.a] THEN UNCHANGED jv ELSE J!Start(Cur.a))
    \/ (IsEv("done") \/ IsCall("exit")) /\ J!End(Cur.t) /\ UNCHANGED wv
    \/ IsOp("join") /\ Cur.r = 0 /\ J!JoinNow(Cur.t, Cur.a) /\ UNCHANGED wv
    \/ IsOp("join") /\ Cur.r = -1 /\ J!JoinFail(Cur.t, Cur.a) /\ UNCHANGED wv
    \/ IsCall("join") /\ J!JoinCall(Cur.t, Cur.a) /\ Wakes(Cur.a) /\ UNCHANGED wt
    \/ IsRet("join") /\ Cur.r = 0 /\ joins[Cur.t] = Cur.a /\ J!JoinRet(Cur.t) /\ UNCHANGED wv
    \/ IsCall("waitio") /\ joins[Cur.t] = 0 /\ UNCHANGED jv
       /\ wt' = [wt EXCEPT ![Cur.t] = TRUE]
       /\ woken' = [woken EXCEPT ![Cur.t] = FALSE]
    \/ IsRet("waitio") /\ wt[Cur.t] /\ (woken[Cur.t] \/ J!Joined(Cur.t)) /\ UNCHANGED jv
       /\ wt' = [wt EXCEPT ![Cur.t] = FALSE] /\ UNCHANGED woken
    \* woken by its joiner before anything else was recorded
    \/ IsOp("waitio") /\ J!Joined(Cur.t) /\ UNCHANGED jv /\ UNCHANGED wv
    \/ IsOp("wake") /\ Wakes(Cur.a) /\ UNCHANGED jv /\ UNCHANGED wt
    \/ (IsEv("quiet") \/ IsEv("final")) /\ J!Quiet /\ UNCHANGED wv
       /\ \A t \in TTasks : wt[t] => ~woken[t]
    \/ IsEv("sysret") /\ J!Quiet /\ UNCHANGED wv /\ \A t \in TTasks : ~live[t]
    \/ More /\ Cur.e \in {"start", "time", "note"} /\ UNCHANGED jv /\ UNCHANGED wv
    \/ More /\ Cur.o = "yield" /\ joins[Cur.t] = 0 /\ UNCHANGED jv /\ UNCHANGED wv
    \/ More /\ Cur.o \in {"sleep", "usleep"} /\ joins[Cur.t] = 0 /\ UNCHANGED jv /\ UNCHANGED wv

TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED jv /\ UNCHANGED wv
=============================================================================
