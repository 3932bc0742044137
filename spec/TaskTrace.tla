----------------------------- MODULE TaskTrace -----------------------------
(***************************************************************************)
(* Recorded executions against the life cycle contract: every start, turn, *)
(* wait, wakeup, end and every reading of the task states.                 *)
(***************************************************************************)
EXTENDS TraceIO

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
VARIABLES st, fresh, cur,
          no,           \* number of the start that is (to be) executed
          now, dl       \* clock, deadline of a sleeper (<<0,0>>: none)
T == INSTANCE Task WITH Tasks <- TTasks
tv == <<st, fresh, cur>>
xv == <<no, now, dl>>

TraceInit == /\ TInit /\ T!Init
             /\ no = [t \in TTasks |-> 0]
             /\ now = <<0, 0>>
             /\ dl = [t \in TTasks |-> <<0, 0>>]

Due(t) == dl[t] # <<0, 0>> /\ TLeq(dl[t], now)
Code(x) == CASE x = "stop" -> 0 [] x = "run" -> 1 [] x = "wait" -> 2
\* the states read by the program agree; a sleeper whose time has come may
\* already have been woken
Reads(s) == "s" \in DOMAIN Cur =>
    \A i \in 1..Len(Cur.s) :
        \/ Cur.s[i] = Code(s[i])
        \/ Cur.s[i] = 1 /\ s[i] = "wait" /\ Due(i)
Before == Reads(st)
After == Reads(st')

\* a due sleeper is woken by its timer and resumes
TimerResume(t) == /\ cur = 0 /\ st[t] = "wait" /\ Due(t)
                  /\ st' = [st EXCEPT ![t] = "run"] /\ cur' = t /\ UNCHANGED fresh
NoneDue == \A t \in TTasks : st[t] = "wait" => ~Due(t)

Deadline(o, a, b) == IF o = "sleep" THEN TAdd(now, a, b * 1000000)
                     ELSE TAdd(now, a, b * 1000)
Zero == Cur.a = 0 /\ Cur.b = 0

Step ==
    \/ IsOp("spawn") /\ T!Start(Cur.t, Cur.a) /\ After
       /\ no' = [no EXCEPT ![Cur.a] = IF st[Cur.a] = "stop" THEN Cur.b ELSE @]
       /\ UNCHANGED <<now, dl>>
    \/ IsEv("start") /\ Before /\ T!Begin(Cur.t) /\ Cur.a = no[Cur.t]
       /\ Cur.b = 1 /\ Cur.c = 1 /\ UNCHANGED xv
    \/ IsCall("yield") /\ Before /\ T!Yield(Cur.t) /\ UNCHANGED xv
    \/ IsOp("yield") /\ cur = Cur.t /\ Cur.r = 0 /\ Before /\ UNCHANGED tv /\ UNCHANGED xv
    \/ IsRet("yield") /\ Cur.r = 0 /\ T!Resume(Cur.t) /\ After /\ UNCHANGED xv
    \/ IsCall("waitio") /\ Before /\ T!Wait(Cur.t) /\ UNCHANGED xv
    \/ IsRet("waitio") /\ Cur.r = 0 /\ T!Resume(Cur.t) /\ After /\ UNCHANGED xv
    \/ IsOp("wake") /\ T!Wake(Cur.t, Cur.a) /\ After /\ UNCHANGED xv
    \/ More /\ Cur.o \in {"sleep", "usleep"} /\
       \/ Cur.e = "call" /\ ~Zero /\ Before /\ T!Wait(Cur.t)
          /\ dl' = [dl EXCEPT ![Cur.t] = Deadline(Cur.o, Cur.a, Cur.b)]
          /\ UNCHANGED <<no, now>>
       \/ Cur.e = "ret" /\ (T!Resume(Cur.t) \/ TimerResume(Cur.t)) /\ After
          /\ dl' = [dl EXCEPT ![Cur.t] = <<0, 0>>] /\ UNCHANGED <<no, now>>
       \/ Cur.e = "op" /\ cur = Cur.t /\ Zero /\ UNCHANGED tv /\ UNCHANGED xv
    \/ IsEv("done") /\ Before /\ Cur.a = no[Cur.t] /\ T!End(Cur.t) /\ UNCHANGED xv
    \/ IsCall("exit") /\ Before /\ T!End(Cur.t) /\ UNCHANGED xv
    \/ IsOp("dcheck") /\ cur = Cur.t /\ Cur.r = 1 /\ UNCHANGED tv /\ UNCHANGED xv
    \/ IsOp("setprio") /\ cur = Cur.t /\ UNCHANGED tv /\ UNCHANGED xv
    \/ IsOp("getprio") /\ cur = Cur.t /\ UNCHANGED tv /\ UNCHANGED xv
    \/ (IsEv("quiet") \/ IsEv("final")) /\ Before /\ NoneDue /\ T!Idle /\ UNCHANGED xv
    \/ IsEv("sysret") /\ Before /\ T!SysRet /\ UNCHANGED xv
    \/ IsEv("note") /\ UNCHANGED tv /\ UNCHANGED xv
    \/ IsEv("time") /\ now' = <<Cur.a, Cur.b>> /\ UNCHANGED tv /\ UNCHANGED <<no, dl>>

TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED tv /\ UNCHANGED xv
=============================================================================
