---------------------------- MODULE ReactorTrace ----------------------------
(***************************************************************************)
(* Recorded executions around descriptor registration.  Descriptors 2i and *)
(* 2i+1 are connected.  The readiness of the first descriptors, as poll    *)
(* gives it, is recorded with every event.                                 *)
(***************************************************************************)
EXTENDS TraceIO, Bitwise

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
NF == CHOOSE n \in 0..5000 : \A i \in 1..Len(Traces) : Traces[i].nf <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].nf = n
TTasks == 1..NT
TFds == 0..(NF - 1)
VARIABLES reg, edge, st, poss, last, age
R == INSTANCE Reactor WITH Tasks <- TTasks, Fds <- TFds
rv == <<reg, edge, st, poss>>

Bit(x, b) == (x & b) # 0
Kinds(p) == (IF Bit(p, 1) THEN {"in"} ELSE {}) \cup (IF Bit(p, 4) THEN {"out"} ELSE {})
            \cup (IF Bit(p, 2) THEN {"pri"} ELSE {}) \cup (IF Bit(p, 8192) THEN {"rdhup"} ELSE {})
            \cup (IF Bit(p, 24) THEN {"hup"} ELSE {})
Peer(f) == IF f % 2 = 0 THEN f + 1 ELSE f - 1
Recorded == Traces[tid].gt = 1
\* readiness after this event, and after the one before
Ready(f) == IF Recorded THEN Kinds(Cur.p[f + 1]) ELSE {"out"}
Before(f) == IF Recorded THEN Kinds(Traces[tid].ev[l - 1].p[f + 1]) ELSE {"out"}

TraceInit == TInit /\ R!Init /\ last = 0 /\ age = [t \in TTasks |-> 0]

\* tasks of equal priority: whoever is to be woken gets a turn soon
Bound == 20 * Traces[tid].n + 40
NotStarved == \A t \in TTasks : age[t] <= Bound
Older == \E late \in {R!Forgotten'} :
             age' = [t \in TTasks |-> IF t \in late THEN age[t] + 1 ELSE 0]
Same == UNCHANGED age

\* Traffic at Cur.a.  What it must raise is given as E.  The system may report
\* any registered direction that is ready at either end along with it (failed
\* attempts on a full pipe and state changes do), and does not report what
\* ended in the meantime.
Around(E) ==
    LET f == Cur.a
        g == Peer(f)
        E1 == R!MayRaised(R!MayRaised(E, f, Ready(f)), g, Ready(g))
    IN  IF Recorded THEN R!Ended(R!Ended(E1, f, Ready(f)), g, Ready(g)) ELSE E1
Put == /\ edge' = Around(IF Cur.r > 0 THEN R!Raised(edge, Peer(Cur.a), {"in"}) ELSE edge)
       /\ UNCHANGED <<reg, st, poss>>
Got == \* data or space: a = descriptor read from
    LET g == Peer(Cur.a)
        new == (Ready(g) \ Before(g)) \cap {"out"}
    IN  /\ edge' = Around(IF Cur.r > 0 /\ new # {} THEN R!Raised(edge, g, new) ELSE edge)
        /\ UNCHANGED <<reg, st, poss>>
Closed ==
    LET E1 == R!Raised(edge, Peer(Cur.a), {"hup"})
    IN  /\ reg' = [reg EXCEPT ![Cur.a] = R!NoReg]
        /\ edge' = [E1 EXCEPT ![Cur.a] = "none"]
        /\ poss' = poss \cup R!Old(Cur.a) /\ UNCHANGED st
Shut == edge' = Around(R!Raised(edge, Peer(Cur.a), {"in", "rdhup"})) /\ UNCHANGED <<reg, st, poss>>
ManyPut ==
    LET fs == {Peer(Cur.a + 2 * i) : i \in 0..(Cur.c - 1)}
    IN  edge' = [f \in TFds |-> IF f \in fs THEN R!RaisedAt(edge, f, {"in"}) ELSE edge[f]]
        /\ UNCHANGED <<reg, st, poss>>

\* the running task changed: a scheduling point
Changed == More /\ Cur.t # 0 /\ Cur.t # last
Switched == Changed /\ R!Turn /\ last' = Cur.t /\ Same /\ UNCHANGED <<tid, l>>
\* a wait that came back before anything else happened
WaitHalf == IsOp("waitio") /\ ~Changed /\ R!WaitCall(Cur.t) /\ Same /\ UNCHANGED <<last, tid, l>>

Step ==
    \/ IsOp("fadd") /\ (IF Cur.r = 0 THEN R!Add(Cur.b, Cur.a, Kinds(Cur.c), Ready(Cur.b))
                                     ELSE R!AddFail(Cur.b)) /\ Same
    \/ IsOp("fmod") /\ (IF Cur.r = 0 THEN R!Mod(Cur.b, Cur.a, Kinds(Cur.c), Ready(Cur.b))
                                     ELSE R!ModFail(Cur.b)) /\ Same
    \/ IsOp("fdel") /\ (IF Cur.r = 0 THEN R!Del(Cur.a) ELSE R!DelFail(Cur.a)) /\ Same
    \/ IsCall("waitio") /\ R!WaitCall(Cur.t) /\ NotStarved /\ Older
    \/ (IsRet("waitio") \/ IsOp("waitio")) /\ Cur.r = 0 /\ R!WaitRet(Cur.t) /\ Older
    \/ (IsCall("yield") \/ IsOp("yield")) /\ st[Cur.t] = "run" /\ R!Turn /\ NotStarved /\ Older
    \/ IsRet("yield") /\ Cur.r = 0 /\ UNCHANGED rv /\ Same
    \/ IsOp("wake") /\ R!Wake(Cur.a) /\ Same
    \/ IsEv("note") /\ Cur.o = "fput" /\ Put /\ Same
    \/ IsEv("note") /\ Cur.o = "fget" /\ Got /\ Same
    \/ IsEv("note") /\ Cur.o = "fclose" /\ Closed /\ Same
    \/ IsEv("note") /\ Cur.o = "fshut" /\ Shut /\ Same
    \/ IsEv("note") /\ Cur.o = "mput" /\ ManyPut /\ Same
    \/ (IsEv("quiet") \/ IsEv("final")) /\ R!Quiet /\ age' = [t \in TTasks |-> 0]
    \/ /\ \/ More /\ Cur.e \in {"start", "done", "sysret", "time"}
          \/ IsOp("spawn")
          \/ IsEv("note") /\ Cur.o = "nop"
       /\ UNCHANGED rv /\ Same

TraceNext == \/ Switched
             \/ WaitHalf
             \/ ~Changed /\ Step /\ last' = last /\ Eat
             \/ Accepted /\ UNCHANGED <<rv, last, age>>
=============================================================================
