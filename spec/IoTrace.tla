------------------------------ MODULE IoTrace -------------------------------
(***************************************************************************)
(* Recorded executions of the transfer calls.  Descriptors 2i and 2i+1 are *)
(* connected; types[f+1]: 0 stream socket, 1 pipe (even end reads), 2      *)
(* datagram socket, 3 listener, 4 sequenced packet socket.  p and u of an  *)
(* event are readiness and readable bytes, taken before the call for       *)
(* "call" events, after it otherwise.                                      *)
(***************************************************************************)
EXTENDS TraceIO, Bitwise, Io

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
TFds == 0..15
None == [o |-> "none"]
VARIABLES ended, closed,   \* descriptors that will not write any more; closed ones
          seen,            \* bytes of each that have reached the other side
          wtot, rtot, bad, \* bytes written and read at each; pairs no longer counted
          q,               \* messages on the way to each
          pend,            \* connections to be accepted
          call,            \* unfinished calls
          ans,             \* prepared answers to connect
          ctl              \* positions in each stream that control data was attached to
vars_ == <<ended, closed, wtot, rtot, bad, q, pend, call, ans, ctl>>

TraceInit == /\ TInit /\ ended = {} /\ closed = {} /\ bad = {}
             /\ seen = [f \in TFds |-> 0] /\ wtot = [f \in TFds |-> 0] /\ rtot = [f \in TFds |-> 0]
             /\ q = [f \in TFds |-> <<>>] /\ pend = [f \in TFds |-> 0]
             /\ call = [t \in TTasks |-> None] /\ ans = [t \in TTasks |-> <<>>]
             /\ ctl = [f \in TFds |-> {}]

Bit(x, b) == (x & b) # 0
Peer(f) == IF f % 2 = 0 THEN f + 1 ELSE f - 1
Type(f) == Traces[tid].types[f + 1]
Stream(f) == Type(f) \in {0, 1}
P(f) == Cur.p[f + 1]
U(f) == Cur.u[f + 1]
Readable(f) == Bit(P(f), 25)      \* data, hang-up or error
Writable(f) == Bit(P(f), 28)
Whole(m) == m \in {3, 5, 7, 9}     \* 9: a message with control data
Broken(f) == Peer(f) \in closed
WBroken(f) == Broken(f) \/ f \in ended

\* details of a call
Ykind == Cur.x[1]
Ycalls == Cur.x[2]
Yabort == Cur.x[3] = 1
Err == Cur.x[4]
\* the callback decides: -2 exactly when it said so; it is asked instead of waiting
Asked == /\ Yabort <=> Cur.r = -2
         /\ Ycalls > 0 => Ykind # 0
         /\ (Cur.e = "ret" /\ Ykind # 0) => Ycalls > 0
         /\ Cur.e = "op" => Ycalls = 0
         /\ Cur.r = -1 => Err \notin {0, 11}     \* the error is the system call's

\* bytes written = bytes read + bytes on the way, where all are known
Moving(f, c) == \E t \in TTasks : /\ c[t].o \in {"ior", "iow"} /\ c[t].f \in {f, Peer(f)} /\ Whole(c[t].mode)
Kept(f) == \/ ~Stream(f) \/ f \in closed' \/ (Type(f) = 1 /\ f % 2 = 1)
           \/ {f, Peer(f)} \cap bad' # {} \/ Moving(f, call')
           \/ U(f) = wtot'[Peer(f)] - rtot'[f]
Balanced(f) == Kept(f) /\ Kept(Peer(f))
NoCall(t) == call[t] = None
Ends(t) == call' = [call EXCEPT ![t] = None]

\* -------------------------------------------------------------- reading
ReadResult(f, n, mode) ==
    IF Stream(f)
    THEN \/ /\ Yabort /\ bad' = (IF Whole(mode) THEN bad \cup {f} ELSE bad)
            /\ UNCHANGED <<rtot, q>>
         \/ /\ ~Yabort
            /\ IF mode = 8 THEN (Cur.r > 0 /\ Cur.r <= n /\ Cur.r <= U(f)) \/
                                (Cur.r <= 0 /\ ReadOK(n, FALSE, Cur.r, U(f), Peer(f) \in ended, Broken(f)))
               ELSE ReadOK(n, Whole(mode), Cur.r, U(f), Peer(f) \in ended, Broken(f))
            /\ rtot' = (IF Cur.r > 0 /\ mode # 8 THEN [rtot EXCEPT ![f] = @ + Cur.r] ELSE rtot)
            /\ bad' = (IF Cur.r < 0 /\ Whole(mode) THEN bad \cup {f} ELSE bad)
            \* an error only if nothing was moved before
            /\ (Cur.r < 0 /\ {f, Peer(f)} \cap bad = {}) => U(f) = wtot[Peer(f)] - rtot[f]
            /\ UNCHANGED q
    ELSE /\ \/ Yabort /\ UNCHANGED q
            \/ /\ ~Yabort /\ MessageOK(n, Cur.r, q[f], Cur.x[7])
               /\ q' = (IF mode = 8 THEN q ELSE [q EXCEPT ![f] = Tail(@)])
               /\ mode = 6 => Cur.x[6] = (IF Cur.r < q[f][1][2] THEN 32 ELSE 0)   \* truncated
            \/ /\ ~Yabort /\ Cur.r = 0 /\ q[f] = <<>> /\ Type(f) = 4 /\ Peer(f) \in ended /\ UNCHANGED q
            \/ /\ ~Yabort /\ Cur.r = -1 /\ Broken(f) /\ UNCHANGED q
         /\ UNCHANGED <<rtot, bad>>
Named(mode) == (Cur.r >= 0 /\ mode \in {4, 6}) => Cur.x[5] # 0
Read ==
    /\ More /\ Cur.o = "ior" /\ UNCHANGED <<ended, closed, wtot, pend, ans, ctl>>
    /\ LET f == Cur.a  n == Cur.b  mode == Cur.c  t == Cur.t IN
       \/ /\ Cur.e = "call" /\ NoCall(t)
          /\ Whole(mode) \/ ~Readable(f)
          /\ call' = [call EXCEPT ![t] = [o |-> "ior", f |-> f, mode |-> mode]]
          /\ UNCHANGED <<rtot, bad, q>>
       \/ /\ Cur.e \in {"op", "ret"} /\ Asked /\ ReadResult(f, n, mode) /\ Named(mode)
          /\ (Stream(f) /\ mode = 6 /\ Cur.r >= 0) => Cur.x[6] = 0
          /\ (Cur.e = "ret" <=> ~NoCall(t)) /\ Ends(t) /\ Balanced(f)
\* -------------------------------------------------------------- writing
WriteResult(f, n, mode) ==
    IF Stream(f)
    THEN \/ /\ Yabort /\ bad' = (IF Whole(mode) THEN bad \cup {f} ELSE bad)
            /\ UNCHANGED <<wtot, q>>
         \/ /\ ~Yabort
            /\ WriteOK(n, Whole(mode), Cur.r, Bit(P(f), 4), WBroken(f))
            /\ wtot' = (IF Cur.r > 0 THEN [wtot EXCEPT ![f] = @ + Cur.r] ELSE wtot)
            /\ bad' = (IF Cur.r < 0 /\ Whole(mode) THEN bad \cup {f} ELSE bad)
            /\ Cur.r < 0 => {f, Peer(f)} \cap bad # {} \/ seen[f] <= wtot[f]
            /\ UNCHANGED q
    ELSE /\ \/ Yabort /\ UNCHANGED q
            \/ ~Yabort /\ Cur.r = n /\ q' = [q EXCEPT ![Peer(f)] = Append(@, <<Cur.x[7], n>>)]
            \/ ~Yabort /\ Cur.r = -1 /\ WBroken(f) /\ UNCHANGED q
         /\ UNCHANGED <<wtot, bad>>
Write ==
    /\ More /\ Cur.o = "iow" /\ UNCHANGED <<ended, closed, rtot, pend, ans>>
    /\ LET f == Cur.a  n == Cur.b  mode == Cur.c  t == Cur.t IN
       \/ /\ Cur.e = "call" /\ NoCall(t)
          /\ Whole(mode) \/ ~Writable(f)
          /\ call' = [call EXCEPT ![t] = [o |-> "iow", f |-> f, mode |-> mode]]
          /\ UNCHANGED <<wtot, bad, q>>
       \/ /\ Cur.e \in {"op", "ret"} /\ Asked /\ WriteResult(f, n, mode)
          /\ (Cur.e = "ret" <=> ~NoCall(t)) /\ Ends(t) /\ Balanced(f)
    /\ ctl' = (IF Cur.c = 9 /\ Cur.e # "ret" THEN [ctl EXCEPT ![Cur.a] = @ \cup {wtot[Cur.a]}] ELSE ctl)
\* -------------------------------------------------- connections, creation
Accept ==
    /\ More /\ Cur.o = "ioacc" /\ UNCHANGED <<ended, closed, wtot, rtot, bad, q, ans, ctl>>
    /\ \/ /\ Cur.e = "call" /\ NoCall(Cur.t) /\ pend[Cur.a] = 0
          /\ call' = [call EXCEPT ![Cur.t] = [o |-> "ioacc", f |-> Cur.a]] /\ UNCHANGED pend
       \/ /\ Cur.e \in {"op", "ret"} /\ Asked
          /\ \/ Cur.r = 0 /\ pend[Cur.a] > 0 /\ pend' = [pend EXCEPT ![Cur.a] = @ - 1]
             \/ Cur.r = -2 /\ UNCHANGED pend
          /\ (Cur.e = "ret" <=> ~NoCall(Cur.t)) /\ Ends(Cur.t)
Connect ==
    /\ More /\ Cur.o = "ioconn" /\ UNCHANGED <<ended, closed, wtot, rtot, bad, q, pend, ctl>>
    /\ \/ Cur.e = "note" /\ ans' = [ans EXCEPT ![Cur.t] = Cur.x] /\ UNCHANGED call
       \/ /\ Cur.e = "call" /\ NoCall(Cur.t) /\ Waits(ans[Cur.t][1])
          /\ call' = [call EXCEPT ![Cur.t] = [o |-> "ioconn", f |-> Cur.a]] /\ UNCHANGED ans
       \/ /\ Cur.e \in {"op", "ret"} /\ Asked
          /\ \/ Cur.r = -2 /\ Waits(ans[Cur.t][Cur.x[5]])
             \/ Cur.r # -2 /\ ConnectOK(ans[Cur.t], Cur.r, Err, Cur.x[5])
          /\ Ykind # 0 => Ycalls = Cur.x[5] - (IF Cur.r = -2 THEN 0 ELSE 1)
          /\ (Cur.e = "ret" <=> ~NoCall(Cur.t)) /\ Ends(Cur.t) /\ UNCHANGED ans
Make == IsOp("mkfd") /\ Cur.r = 0 /\ UNCHANGED vars_
\* ----------------------------------------------------------- other side
\* control data arrives once, with the first byte of its message
Attached(f) == \/ {f, Peer(f)} \cap bad # {}
               \/ Cur.c = Cardinality({p \in ctl[Peer(f)] : p >= rtot[f] /\ p < rtot[f] + Cur.r})
Other == LET f == Cur.a IN
    /\ IsEv("note") /\ UNCHANGED ctl
    /\ \/ /\ Cur.o = "fput" /\ UNCHANGED <<ended, closed, rtot, bad, pend, call, ans>>
          /\ IF Cur.r <= 0 THEN UNCHANGED <<wtot, q>>
             ELSE IF Stream(f) THEN wtot' = [wtot EXCEPT ![f] = @ + Cur.r] /\ UNCHANGED q
             ELSE q' = [q EXCEPT ![Peer(f)] = Append(@, <<Cur.c, Cur.r>>)] /\ UNCHANGED wtot
          /\ Balanced(f)
       \/ /\ Cur.o = "fget" /\ UNCHANGED <<ended, closed, wtot, bad, call, ans>>
          /\ IF Type(f) = 3
             THEN pend' = (IF Cur.r = 0 THEN [pend EXCEPT ![f] = @ - 1] ELSE pend) /\ UNCHANGED <<rtot, q>>
             ELSE IF Cur.r <= 0 THEN UNCHANGED <<rtot, q, pend>>
             ELSE IF Stream(f) THEN rtot' = [rtot EXCEPT ![f] = @ + Cur.r] /\ Attached(f) /\ UNCHANGED <<q, pend>>
             ELSE q' = [q EXCEPT ![f] = Tail(@)] /\ UNCHANGED <<rtot, pend>>
          /\ Balanced(f)
       \/ /\ Cur.o = "fclose" /\ ended' = ended \cup {f} /\ closed' = closed \cup {f}
          /\ UNCHANGED <<wtot, rtot, bad, q, pend, call, ans>>
       \/ /\ Cur.o = "fshut" /\ ended' = ended \cup {f}
          /\ UNCHANGED <<closed, wtot, rtot, bad, q, pend, call, ans>>
       \/ /\ Cur.o = "fconn" /\ pend' = (IF Cur.r = 0 THEN [pend EXCEPT ![f] = @ + 1] ELSE pend)
          /\ UNCHANGED <<ended, closed, wtot, rtot, bad, q, call, ans>>
\* nobody waits for something that is there
Missed(c) == \/ c.o = "ior" /\ Readable(c.f)
             \/ c.o = "iow" /\ Writable(c.f)
             \/ c.o = "ioacc" /\ pend[c.f] > 0
Quiet == (IsEv("quiet") \/ IsEv("final")) /\ (\A t \in TTasks : ~Missed(call[t])) /\ UNCHANGED vars_
Rest == /\ \/ More /\ Cur.e \in {"start", "done", "sysret", "time"}
           \/ IsOp("spawn") \/ IsOp("wake") \/ IsOp("fdel")
           \/ More /\ Cur.o = "yield"
           \/ IsEv("note") /\ Cur.o = "nop"
        /\ UNCHANGED vars_

Step == Read \/ Write \/ Accept \/ Connect \/ Make \/ Other \/ Quiet \/ Rest
Notice == seen' = [f \in TFds |-> IF f < Len(Cur.u) /\ Peer(f) \notin closed' /\ Stream(f)
                                   THEN rtot'[Peer(f)] + U(Peer(f)) ELSE seen[f]]
TraceNext == \/ Step /\ Notice /\ Eat
             \/ Accepted /\ UNCHANGED <<seen, vars_>>
=============================================================================
