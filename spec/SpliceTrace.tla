---------------------------- MODULE SpliceTrace -----------------------------
(***************************************************************************)
(* Recorded executions of the descriptor splice.  Descriptors 2i and 2i+1  *)
(* are connected; the splice runs between some ends, other tasks write to  *)
(* and read from the opposite ones.  What the splice took and delivered    *)
(* follows from the bytes written and read at the opposite ends and those  *)
(* still on the way (u).                                                   *)
(***************************************************************************)
EXTENDS TraceIO, Bitwise, Splice

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
TFds == 0..15
None == <<>>
VARIABLES wtot, rtot,      \* bytes written to and read from each end by the other tasks
          ended, closed,   \* ends that will not write any more; closed ones
          reset,           \* ends whose connection was closed with unread bytes
          call,            \* per task: <<a in, a out, b in, b out, stages>> of a running splice
          ask              \* ... of the next one
vars_ == <<wtot, rtot, ended, closed, reset, call, ask>>
TraceInit == /\ TInit /\ wtot = [f \in TFds |-> 0] /\ rtot = wtot /\ ended = {} /\ closed = {}
             /\ reset = {} /\ call = [t \in TTasks |-> None] /\ ask = call

Bit(x, b) == (x & b) # 0
Peer(f) == IF f % 2 = 0 THEN f + 1 ELSE f - 1
\* the direction from i to o as seen with the current event, wt and rt
\* being the totals after it
Seen(i, o, wt, rt, en, cl, rs) ==
    LET u == Cur.u[i + 1]
        dead == Peer(o) \in cl
        given == IF dead THEN 0 ELSE rt[Peer(o)] + Cur.u[Peer(o) + 1]
    IN  [u |-> u, held |-> IF dead THEN 0 ELSE wt[Peer(i)] - u - given,
         eof |-> Peer(i) \in en, room |-> Bit(Cur.p[o + 1], 4),
         dead |-> dead, fail |-> dead \/ i \in rs \/ o \in rs]
Fore(c, wt, rt, en, cl, rs) == Seen(c[1], c[4], wt, rt, en, cl, rs)
Back(c, wt, rt, en, cl, rs) == Seen(c[3], c[2], wt, rt, en, cl, rs)
\* c[5]: 0 descriptors, 1 streams without stages, 2 with stages.  Streams may
\* end with either direction; with stages they do.
Shared(c) == c[1] = c[2] \/ c[3] = c[4] \/ c[5] = 2
EndsWithOne(c) == Shared(c) \/ c[5] = 1
F(c) == Fore(c, wtot', rtot', ended', closed', reset')
B(c) == Back(c, wtot', rtot', ended', closed', reset')
\* never delivers what it did not take
Sane(c) == F(c).held >= 0 /\ B(c).held >= 0

Ykind == Cur.x[1]
Ycalls == Cur.x[2]
Yabort == Cur.x[3] = 1
Run == /\ More /\ Cur.o = "splice" /\ UNCHANGED <<wtot, rtot, ended, closed, reset>>
       /\ \/ /\ Cur.e = "note" /\ ask' = [ask EXCEPT ![Cur.t] = Cur.x] /\ UNCHANGED call
          \/ /\ Cur.e = "call" /\ call[Cur.t] = None
             /\ call' = [call EXCEPT ![Cur.t] = ask[Cur.t]] /\ UNCHANGED ask
          \/ /\ Cur.e \in {"op", "ret"} /\ (Cur.e = "ret" <=> call[Cur.t] # None)
             /\ Sane(ask[Cur.t])
             /\ Yabort \/ ReturnOK(F(ask[Cur.t]), B(ask[Cur.t]), EndsWithOne(ask[Cur.t]))
             /\ Ycalls > 0 => Ykind # 0
             /\ (Cur.e = "ret" /\ Ykind # 0) => Ycalls > 0
             /\ call' = [call EXCEPT ![Cur.t] = None] /\ UNCHANGED ask
Other == LET f == Cur.a IN
    /\ IsEv("note") /\ UNCHANGED <<call, ask>>
    /\ \/ /\ Cur.o = "fput" /\ wtot' = [wtot EXCEPT ![f] = @ + IF Cur.r > 0 THEN Cur.r ELSE 0]
          /\ UNCHANGED <<rtot, ended, closed, reset>>
       \/ /\ Cur.o = "fget" /\ rtot' = [rtot EXCEPT ![f] = @ + IF Cur.r > 0 THEN Cur.r ELSE 0]
          /\ UNCHANGED <<wtot, ended, closed, reset>>
       \/ /\ Cur.o = "fclose" /\ ended' = ended \cup {f} /\ closed' = closed \cup {f}
          /\ reset' = (IF Cur.b > 0 THEN reset \cup {Peer(f)} ELSE reset)
          /\ UNCHANGED <<wtot, rtot>>
       \/ /\ Cur.o = "fshut" /\ ended' = ended \cup {f} /\ UNCHANGED <<wtot, rtot, closed, reset>>
Quiet == /\ IsEv("quiet") \/ IsEv("final")
         /\ UNCHANGED vars_
         /\ \A t \in TTasks : IF call[t] = None THEN TRUE
                              ELSE Sane(call[t]) /\ RestOK(F(call[t]), B(call[t]), Shared(call[t]))
Rest == /\ \/ More /\ Cur.e \in {"start", "done", "sysret", "time"}
           \/ IsOp("spawn") \/ IsOp("wake") \/ IsOp("fdel")
           \/ More /\ Cur.o = "yield"
           \/ IsEv("note") /\ Cur.o = "nop"
        /\ UNCHANGED vars_
Step == Run \/ Other \/ Quiet \/ Rest
TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED vars_
=============================================================================
