---------------------------- MODULE ReactorImpl ----------------------------
(***************************************************************************)
(* The scheduler's use of the kernel's edge-triggered readiness list.  The *)
(* kernel keeps a list of registered descriptors with news; a poll takes   *)
(* at most Batch of them, checks that they are still ready in a registered *)
(* direction and reports each to the task recorded with the registration,  *)
(* which is made runnable if it waits.  The scheduler polls at every       *)
(* switch if some task is not runnable; a poll may be interrupted.  At     *)
(* each switch any runnable task may be chosen.                            *)
(* Descriptors are readable or not; every kind of news can be given.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Tasks, Fds, Batch, Intr, Evs
None == 0
VARIABLES reg, edge, st, poss, \* contract state
          run,                 \* runnable tasks
          cur,                 \* task that runs, None inside the scheduler
          news,                \* kernel's list
          rd,                  \* readable descriptors
          intr
vars == <<reg, edge, st, poss, run, cur, news, rd, intr>>
R == INSTANCE Reactor

Kinds(f) == (IF f \in rd THEN {"in"} ELSE {}) \cup {"out"}   \* always writable
Listed(f) == \E i \in 1..Len(news) : news[i] = f
Listing(n, f, kinds) == IF reg[f].t # None /\ kinds \cap (reg[f].ev \cup {"hup"}) # {} /\
                           ~\E i \in 1..Len(n) : n[i] = f
                        THEN Append(n, f) ELSE n
Without(n, f) == SelectSeq(n, LAMBDA x : x # f)

Init == /\ R!Init /\ run = Tasks /\ cur = None /\ news = <<>> /\ rd = {} /\ intr = 0

Keep == UNCHANGED <<run, cur, intr>>
\* ---- steps of the running task
Put(f) == /\ cur # None /\ R!Raise(f, {"in"}) /\ rd' = rd \cup {f}
          /\ news' = Listing(news, f, {"in"}) /\ Keep
Get(f) == /\ cur # None /\ rd' = rd \ {f} /\ R!Drain(f, {"out"})
          /\ UNCHANGED news /\ Keep
AddFd(f, t, ev) ==
    /\ cur # None
    /\ \/ /\ R!Add(f, t, ev, Kinds(f))
          /\ news' = IF Kinds(f) \cap ev # {} THEN Append(news, f) ELSE news
       \/ R!AddFail(f) /\ UNCHANGED news
    /\ UNCHANGED rd /\ Keep
ModFd(f, t, ev) ==
    /\ cur # None
    /\ \/ /\ R!Mod(f, t, ev, Kinds(f))
          \* an entry already listed stays and is looked at again later
          /\ news' = IF Kinds(f) \cap ev # {} /\ ~Listed(f) THEN Append(news, f) ELSE news
       \/ R!ModFail(f) /\ UNCHANGED news
    /\ UNCHANGED rd /\ Keep
DelFd(f) == /\ cur # None
            /\ \/ R!Del(f) /\ news' = Without(news, f)
               \/ R!DelFail(f) /\ UNCHANGED news
            /\ UNCHANGED rd /\ Keep
WakeUp(t) == /\ cur # None /\ t # cur /\ R!Wake(t) /\ run' = run \cup {t}
             /\ UNCHANGED <<cur, news, rd, intr>>
WaitIo == /\ cur # None /\ R!WaitCall(cur) /\ run' = run \ {cur} /\ cur' = None
          /\ UNCHANGED <<news, rd, intr>>
Yield == /\ cur # None /\ R!Turn /\ cur' = None /\ UNCHANGED <<run, news, rd, intr>>

\* ---- the scheduler
Min(a, b) == IF a < b THEN a ELSE b
Took == SubSeq(news, 1, Min(Batch, Len(news)))
Reported == {reg[Took[i]].t : i \in {j \in 1..Len(Took) :
                reg[Took[j]].t # None /\ Kinds(Took[j]) \cap reg[Took[j]].ev # {}}}
Rest == SubSeq(news, Min(Batch, Len(news)) + 1, Len(news))
Choose(t) == \* the chosen task continues; if it waited this is the return
    /\ cur' = t
    /\ IF st[t] # "run"
       THEN /\ R!WaitRet(t)
            \* what the contract considers consumed is not what is still listed
            /\ \A i \in 1..Len(news') : edge[news'[i]] # "none" => edge'[news'[i]] # "none"
       ELSE UNCHANGED <<reg, edge, st, poss>>
Poll(t, r, n) == /\ run' = run \cup r /\ news' = n /\ t \in run \cup r /\ Choose(t)
                 /\ UNCHANGED rd
Sched == /\ cur = None /\ run # {}
         /\ \E t \in Tasks :
            \/ run = Tasks /\ Poll(t, {}, news) /\ UNCHANGED intr
            \/ run # Tasks /\ Poll(t, Reported, Rest) /\ UNCHANGED intr
            \/ run # Tasks /\ intr < Intr /\ Poll(t, {}, news) /\ intr' = intr + 1
\* nobody is runnable: the scheduler polls until somebody is
Idle == /\ cur = None /\ run = {}
        /\ \/ /\ Reported # {} /\ \E t \in Tasks : Poll(t, Reported, Rest)
              /\ UNCHANGED intr
           \/ /\ Reported = {} /\ news # <<>> /\ news' = Rest
              /\ UNCHANGED <<reg, edge, st, poss, run, cur, rd, intr>>
Ext(f) == \* the world outside acts while everybody waits
    /\ cur = None /\ run = {} /\ news = <<>> /\ R!Quiet
    /\ rd' = rd /\ news' = news /\ Keep
ExtPut(f) == /\ cur = None /\ run = {} /\ R!Raise(f, {"in"}) /\ rd' = rd \cup {f}
             /\ news' = Listing(news, f, {"in"}) /\ Keep

Next == \/ \E f \in Fds : Put(f) \/ Get(f) \/ DelFd(f) \/ Ext(f) \/ ExtPut(f)
             \/ \E t \in Tasks, ev \in Evs : AddFd(f, t, ev) \/ ModFd(f, t, ev)
        \/ \E t \in Tasks : WakeUp(t)
        \/ WaitIo \/ Yield \/ Sched \/ Idle
Spec == Init /\ [][Next]_vars

\* whoever is made runnable has a reason in the contract
CanReturn == \A t \in run : st[t] = "run" \/ st[t] = "woken" \/ t \in poss \/ R!Cause(t) # {}
\* when everybody sleeps and nothing is listed, nobody was forgotten
QuietOK == (cur = None /\ run = {} /\ news = <<>>) => R!Forgotten = {}
=============================================================================
