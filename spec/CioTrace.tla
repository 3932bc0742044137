------------------------------ MODULE CioTrace ------------------------------
(***************************************************************************)
(* Recorded calls on a stack of stages over a scripted one, with all calls *)
(* the stack makes below and all waits.                                    *)
(* size: bytes the stack may keep; one: a single buffering stage;          *)
(* peek: the top one can peek                                              *)
(***************************************************************************)
EXTENDS TraceIO, Cio
Size == Traces[tid].size
One == Traces[tid].one = 1
Can == Traces[tid].peek = 1
EAGAIN == 11
EIO == 5

VARIABLES s, op, n, again, clean     \* clean: flushed below since the last write below
vars_ == <<s, op, n, again, clean>>
TraceInit == /\ TInit /\ op = "" /\ n = 0 /\ again = FALSE /\ clean = FALSE
             /\ s = [got |-> 0, used |-> 0, acc |-> 0, del |-> 0, end |-> "", werr |-> FALSE]

Reading(o) == o \in {"rd", "rdx", "rv", "rvx"}
Exactly(o) == o \in {"rdx", "rvx", "wrx", "wvx"}
Writing(o) == o \in {"wr", "wrx", "wv", "wvx"}
Peeking(o) == o \in {"pk", "pv"}

Call == /\ IsEv("call") /\ op = "" /\ op' = Cur.o /\ n' = Cur.a /\ again' = FALSE /\ clean' = FALSE
        /\ UNCHANGED s
Low == /\ IsEv("low") /\ op # "" /\ UNCHANGED <<op, n>>
       /\ again' = (Cur.r = -1 /\ Cur.b = EAGAIN)
       /\ LET m == IF Cur.r > 0 THEN Cur.r ELSE 0 IN
          \/ /\ Cur.o = "r" /\ (Reading(op) \/ Peeking(op)) /\ UNCHANGED clean
             /\ s' = [s EXCEPT !.got = @ + m, !.end = IF Cur.r = 0 /\ Cur.a > 0 THEN "eof" ELSE
                                                      IF Cur.r = -1 /\ Cur.b = EIO THEN "err" ELSE @]
          \/ /\ Cur.o = "w" /\ (Writing(op) \/ op = "fl") /\ clean' = FALSE
             /\ s.del + Cur.a <= s.acc + (IF Writing(op) THEN n ELSE 0)
             /\ s' = [s EXCEPT !.del = @ + m, !.werr = @ \/ (Cur.r = -1 /\ Cur.b = EIO)]
          \/ /\ Cur.o = "f" /\ op = "fl" /\ clean' = (Cur.r = 0)
             /\ s' = [s EXCEPT !.werr = @ \/ (Cur.r = -1 /\ Cur.b = EIO)]
Yield == /\ IsEv("yield") /\ op # "" /\ ~Peeking(op) /\ Cur.a = 2 /\ again /\ again' = FALSE
         /\ Reading(op) => Avail(s) < (IF Exactly(op) /\ n > 0 THEN n ELSE 1)
         /\ UNCHANGED <<s, op, n, clean>>
Ret == /\ IsEv("ret") /\ op = Cur.o /\ op' = "" /\ n' = 0 /\ UNCHANGED <<again, clean>>
       /\ LET r == Cur.r
              m == IF r > 0 THEN r ELSE 0
              w == [s EXCEPT !.acc = @ + m]
          IN /\ (r = -2) <=> (Cur.b = 1)
             /\ r >= -2 /\ (r = -1 => Peeking(op) \/ Cur.c = EIO)
             /\ s' = IF Reading(op) THEN [s EXCEPT !.used = @ + m]
                     ELSE IF Writing(op) THEN w ELSE s
             /\ IF r = -2 THEN Writing(op) => Exactly(op) \/ KeepOK(s, Size)
                ELSE IF Reading(op) THEN IF Exactly(op) THEN ExactOK(s, n, r) ELSE ReadOK(s, n, r)
                ELSE IF Writing(op) THEN IF Exactly(op) THEN WriteAllOK(w, n, r, Size) ELSE WriteOK(w, n, r, Size)
                ELSE IF Peeking(op) THEN IF Can THEN PeekOK(s, IF op = "pk" THEN n ELSE Avail(s), r, One) ELSE r = -1
                ELSE FlushOK(s, r, clean)
Note == More /\ Cur.e \in {"note", "final"} /\ op = "" /\ UNCHANGED vars_
Step == Call \/ Low \/ Yield \/ Ret \/ Note
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED vars_)
=============================================================================
