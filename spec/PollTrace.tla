----------------------------- MODULE PollTrace ------------------------------
(***************************************************************************)
(* Recorded executions of the polling call under a controlled clock.  The  *)
(* readiness of every descriptor is recorded with each event.              *)
(***************************************************************************)
EXTENDS TraceIO, Bitwise, Poll

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
None == [to |-> -99]
VARIABLES now, closed, asked, call
vars_ == <<now, closed, asked, call>>

TraceInit == /\ TInit /\ now = <<0, 0>> /\ closed = {}
             /\ asked = [t \in TTasks |-> <<>>] /\ call = [t \in TTasks |-> None]

Bit(x, b) == (x & b) # 0
Kinds(p) == (IF Bit(p, 1) THEN {"in"} ELSE {}) \cup (IF Bit(p, 2) THEN {"pri"} ELSE {})
            \cup (IF Bit(p, 4) THEN {"out"} ELSE {}) \cup (IF Bit(p, 8) THEN {"err"} ELSE {})
            \cup (IF Bit(p, 16) THEN {"hup"} ELSE {}) \cup (IF Bit(p, 32) THEN {"nval"} ELSE {})
            \cup (IF Bit(p, 8192) THEN {"rdhup"} ELSE {})
            \cup (IF Bit(p, 64) THEN {"rdnorm"} ELSE {}) \cup (IF Bit(p, 128) THEN {"rdband"} ELSE {})
            \cup (IF Bit(p, 256) THEN {"wrnorm"} ELSE {}) \cup (IF Bit(p, 512) THEN {"wrband"} ELSE {})
            \cup (IF (p - (p & 9215)) # 0 THEN {"other"} ELSE {})
NF == Len(Cur.p)
Ready == [f \in 0..(NF - 1) |-> IF f \in closed THEN {"nval"} ELSE Kinds(Cur.p[f + 1])]
\* x of the note: descriptor, events, descriptor, events ...; -1 is no descriptor
Ents(x) == [i \in 1..(Len(x) \div 2) |-> <<x[2 * i - 1], Kinds(x[2 * i])>>]
Real(e) == e[1] >= 0
Only(ents) == SelectSeq(ents, Real)
Rev(x, n) == [i \in 1..n |-> Kinds(x[i])]

\* the calls count whole milliseconds
Ms == 1000000
Deadline(to) == TAdd(now, to \div 1000, (to % 1000) * Ms)
\* and may be early by less than one
TimeUp(c) == c.to = 0 \/ (c.to > 0 /\ TLt(c.dl, TAdd(now, 0, Ms)))

Result(ents, to, c) ==
    /\ Cur.r >= 0
    /\ LET rev == Rev(Cur.x, Len(ents))
           idx == {i \in DOMAIN ents : Real(ents[i])}
       IN  /\ \A i \in DOMAIN ents \ idx : rev[i] = {}
           /\ \A i \in idx : rev[i] = Answer(ents[i], Ready)
           /\ Cur.r = Count(rev)
    /\ Cur.r = 0 => TimeUp(c)
Poll == /\ More /\ Cur.o = "iopoll" /\ UNCHANGED <<now, closed>>
        /\ \/ /\ Cur.e = "note" /\ asked' = [asked EXCEPT ![Cur.t] = IF Cur.b = 0 THEN <<>> ELSE Ents(Cur.x)] /\ UNCHANGED call
           \/ /\ Cur.e = "call" /\ call[Cur.t] = None /\ Cur.a # 0
              /\ call' = [call EXCEPT ![Cur.t] = [to |-> Cur.a, dl |-> IF Cur.a > 0 THEN Deadline(Cur.a) ELSE now]]
              /\ UNCHANGED asked
           \/ /\ Cur.e = "op" /\ call[Cur.t] = None
              /\ Result(asked[Cur.t], Cur.a, [to |-> Cur.a, dl |-> IF Cur.a > 0 THEN Deadline(Cur.a) ELSE now])
              /\ UNCHANGED <<asked, call>>
           \/ /\ Cur.e = "ret" /\ call[Cur.t] # None
              /\ Result(asked[Cur.t], Cur.a, call[Cur.t])
              /\ call' = [call EXCEPT ![Cur.t] = None] /\ UNCHANGED asked
\* the system call fails: so does this one, with its error
Bad == /\ More /\ Cur.o = "pollerr" /\ UNCHANGED <<now, closed, asked>>
       /\ \/ /\ Cur.e = "call" /\ call[Cur.t] = None
             /\ call' = [call EXCEPT ![Cur.t] = [to |-> 0, dl |-> now]]
          \/ /\ Cur.e \in {"op", "ret"} /\ Cur.r = -1 /\ Cur.x[1] = 22
             /\ call' = [call EXCEPT ![Cur.t] = None]
Close == IsEv("note") /\ Cur.o = "fclose" /\ closed' = closed \cup {Cur.a} /\ UNCHANGED <<now, asked, call>>
Time == IsEv("time") /\ now' = <<Cur.a, Cur.b>> /\ UNCHANGED <<closed, asked, call>>
\* whoever still waits has nothing to report; the clock is set for it
Armed(dl) == Cur.a = 1 /\ TLeq(<<Cur.b, Cur.c>>, TAdd(dl, 0, Ms))
Fine(t) == IF call[t] = None THEN TRUE
           ELSE /\ ~Some(Only(asked[t]), Ready) /\ call[t].to # 0
                /\ call[t].to < 0 \/ (TLt(now, TAdd(call[t].dl, 0, Ms)) /\ Armed(call[t].dl))
Quiet == (IsEv("quiet") \/ IsEv("final")) /\ (\A t \in TTasks : Fine(t)) /\ UNCHANGED vars_
Rest == /\ \/ More /\ Cur.e \in {"start", "done", "sysret"}
           \/ IsOp("spawn") \/ IsOp("wake") \/ IsOp("fdel") \/ IsOp("fadd") \/ IsOp("fmod")
           \/ More /\ Cur.o \in {"yield", "sleep"}
           \/ IsEv("note") /\ Cur.o \in {"nop", "fput", "fget", "fshut"}
        /\ UNCHANGED vars_

Step == Poll \/ Bad \/ Close \/ Time \/ Quiet \/ Rest
TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED vars_
=============================================================================
