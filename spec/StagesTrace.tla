---------------------------- MODULE StagesTrace -----------------------------
(***************************************************************************)
(* Recorded programs over objects and stages.  Descriptors 2i and 2i+1 are *)
(* connected, only one end belongs to a stage.                             *)
(***************************************************************************)
EXTENDS TraceIO, Bitwise, Stages
Objs == 1..63
VARIABLES h, kind, arg,      \* heap; kind and arguments of each object
          blk,               \* memory blocks of each object
          gone, closed       \* blocks released, descriptors closed since the last operation
vars_ == <<h, kind, arg, blk, gone, closed>>
TraceInit == /\ TInit /\ gone = {} /\ closed = {}
             /\ h = [alive |-> {}, mine |-> [o \in Objs |-> 0], next |-> [o \in Objs |-> 0]]
             /\ kind = [o \in Objs |-> 0] /\ arg = [o \in Objs |-> <<0, 0>>] /\ blk = [o \in Objs |-> {}]

\* kinds by the letters of the driver
Probe == 80
Buffer == 98
Null == 110
Fd == 102
Socket == 115
Peer(f) == IF f % 2 = 0 THEN f + 1 ELSE f - 1

\* operations
Read == {0, 2, 4, 6}
Write == {1, 3, 5, 7}
Flush == 8
GetFd == 9
Knows(o, m) == CASE kind[o] = Probe -> (arg[o][1] & (2 ^ m)) # 0
                 [] kind[o] \in {Null, Socket} -> TRUE
                 [] kind[o] = Fd -> m \notin 4..7
                 [] OTHER -> FALSE
Own(o) == IF kind[o] = Fd THEN {arg[o][1], arg[o][2]} \ {-1}
          ELSE IF kind[o] = Socket THEN {arg[o][1]} ELSE {}

NewObj == /\ IsOp("new") /\ Cur.r = 1 /\ Cur.a \notin h.alive /\ gone = {} /\ closed = {}
          /\ h' = New(h, Cur.a) /\ kind' = [kind EXCEPT ![Cur.a] = Cur.b]
          /\ arg' = [arg EXCEPT ![Cur.a] = <<Cur.x[1], Cur.x[2]>>]
          /\ blk' = [blk EXCEPT ![Cur.a] = Cur.x[3]..(Cur.x[4] - 1)]
          /\ UNCHANGED <<gone, closed>>
\* h2: the heap afterwards
Settle(h2) == /\ h' = h2
              /\ LET dead == h.alive \ h2.alive IN
                 gone = UNION {blk[o] : o \in dead} /\ closed = UNION {Own(o) : o \in dead}
              /\ gone' = {} /\ closed' = {} /\ UNCHANGED <<kind, arg, blk>>
Change == \/ IsOp("ref") /\ Settle(Ref(h, Cur.a))
          \/ IsOp("unref") /\ Settle(Unref(h, Cur.a))
          \/ IsOp("push") /\ Cur.r = 1 /\ Settle(Push(h, Cur.a, Cur.b))
          \/ IsOp("pop") /\ Cur.r = h.next[Cur.a] /\ Settle(Pop(h, Cur.a))
          \/ IsOp("iface") /\ Cur.r = Cur.a /\ Settle(h)
Gone == /\ IsEv("sys") /\ UNCHANGED <<h, kind, arg, blk>>
        /\ \/ /\ Cur.o = "free" /\ Cur.a \notin gone /\ UNCHANGED closed
              /\ gone' = IF \E o \in h.alive : Cur.a \in blk[o] THEN gone \cup {Cur.a} ELSE gone
           \/ Cur.o = "close" /\ Cur.a >= 0 /\ Cur.a \notin closed /\ closed' = closed \cup {Cur.a} /\ UNCHANGED gone
           \/ Cur.o \in {"alloc", "nomem"} /\ UNCHANGED <<gone, closed>>
\* ------------------------------------------------------------------ using
Hits == Cur.x[1]
Hit == Cur.x[2]
Err == Cur.x[3]
From == Cur.x[4]
Full(f) == (Cur.x[5] & (2 ^ f)) # 0
U0(f) == Cur.x[9 + f]
U1(f) == Cur.x[25 + f]
Same(S) == \A f \in 0..15 : f \in S \/ U0(f) = U1(f)
Least(x, y) == IF x < y THEN x ELSE y
Way(f) == Traces[tid].ways[f \div 2 + 1]
Gram(f) == Way(f) # "s" /\ Way(f) # "p"
FromFd(f, n) == IF U0(f) = 0 THEN Cur.r = -3 /\ Same({})
                ELSE /\ Cur.r = Least(n, U0(f)) /\ Same({f})
                     /\ U1(f) = IF Gram(f) THEN 0 ELSE U0(f) - Cur.r
                     /\ (Way(f) \in {"4", "6"} /\ Cur.b \in 4..7) => From = Peer(f)
ToFd(f, n) == IF Full(f) THEN Cur.r = -3 /\ Same({}) ELSE
              Cur.r = n /\ Same({Peer(f)}) /\ U1(Peer(f)) = U0(Peer(f)) + n
BadFd == Cur.r = -1 /\ Err = 9 /\ Same({})
Answer(o, m, n) ==
    CASE o = 0 -> Hits = 0 /\ Cur.r = -1 /\ Err = 0 /\ Same({})
      [] o # 0 /\ kind[o] = Probe -> Hits = 1 /\ Hit = o /\ Cur.r = o /\ Err = 100 + m /\ Same({})
      [] o # 0 /\ kind[o] = Null -> /\ Hits = 0 /\ Same({})
                         /\ Cur.r = IF m \in Write THEN n ELSE IF m = GetFd THEN -1 ELSE 0
      [] OTHER -> LET in == arg[o][1]
                      out == IF kind[o] = Fd THEN arg[o][2] ELSE arg[o][1]
                  IN /\ Hits = 0
                     /\ IF m \in Read THEN (IF in = -1 THEN BadFd ELSE FromFd(in, n))
                        ELSE IF m \in Write THEN (IF out = -1 THEN BadFd ELSE ToFd(out, n))
                        ELSE IF m = Flush THEN Cur.r = 0 /\ Same({})
                        ELSE LET f == IF n = 0 THEN in ELSE out
                             IN Cur.r = (IF f = -1 THEN -1 ELSE 1000 + f) /\ Same({})
Use == /\ IsOp("use") /\ UNCHANGED vars_ /\ gone = {} /\ closed = {}
       /\ Answer(Handler(h, Cur.a, {o \in Objs : Knows(o, Cur.b)}), Cur.b, Cur.c)
Rest == /\ \/ IsEv("note") \/ IsEv("final") \/ IsOp("feed") \/ IsOp("drain")
        /\ UNCHANGED vars_
Step == NewObj \/ Change \/ Gone \/ Use \/ Rest
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED vars_)
=============================================================================
