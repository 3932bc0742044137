------------------------------- MODULE IoImpl -------------------------------
(***************************************************************************)
(* The retry loops of the transfer calls over a stream with limited space  *)
(* and edge-triggered readiness.  A reading and a writing task use the     *)
(* library; others put, get, end or break the stream at any time.  A call  *)
(* waits after the system call would have blocked; a wait ends when news   *)
(* arrive, or at a stray wakeup, or the callback gives the call up.        *)
(***************************************************************************)
EXTENDS Io, FiniteSets

CONSTANTS Cap,      \* capacity of the stream
          Low,      \* ready for writing when at most this is stored
          Max       \* largest request
VARIABLES buf, ended, broken, \* the stream; ended: no more writes, broken: reader gone
          sent, got,          \* bytes accepted and delivered altogether
          rd, wr,             \* calls: [pc, n, whole, done, res]
          news                \* who has unreported readiness
vars == <<buf, ended, broken, sent, got, rd, wr, news>>
Idle == [pc |-> "idle", n |-> 0, whole |-> FALSE, done |-> 0, res |-> 0]
Limit == 5
Init == /\ buf = 0 /\ ended = FALSE /\ broken = FALSE /\ sent = 0 /\ got = 0
        /\ rd = Idle /\ wr = Idle /\ news = {}
Min(a, b) == IF a < b THEN a ELSE b
\* edges: data or the end for the reader, space or the end for the writer
Room(b) == b <= Low
OutNews(b, c) == IF ~Room(b) /\ Room(c) THEN {"w"} ELSE {}

Start(n, whole) == [pc |-> "try", n |-> n, whole |-> whole, done |-> 0, res |-> 0]
StartR == /\ rd.pc = "idle" /\ \E n \in 1..Max, w \in BOOLEAN : rd' = Start(n, w)
          /\ UNCHANGED <<buf, ended, broken, sent, got, wr, news>>
StartW == /\ wr.pc = "idle" /\ sent < Limit /\ \E n \in 1..Max, w \in BOOLEAN : wr' = Start(n, w)
          /\ UNCHANGED <<buf, ended, broken, sent, got, rd, news>>
Finish(c, r) == [c EXCEPT !.pc = "ret", !.res = r]
TryR == /\ rd.pc = "try" /\ ~broken
        /\ IF buf > 0
           THEN LET m == Min(rd.n - rd.done, buf) IN
                /\ buf' = buf - m /\ got' = got + m /\ news' = news \cup OutNews(buf, buf - m)
                /\ rd' = IF ~rd.whole \/ rd.done + m = rd.n
                         THEN Finish([rd EXCEPT !.done = @ + m], rd.done + m)
                         ELSE [rd EXCEPT !.done = @ + m]
           ELSE /\ rd' = IF ended THEN Finish(rd, rd.done) ELSE [rd EXCEPT !.pc = "wait"]
                /\ UNCHANGED <<buf, got, news>>
        /\ UNCHANGED <<ended, broken, sent, wr>>
TryW == /\ wr.pc = "try" /\ ~ended
        /\ IF broken
           THEN /\ wr' = Finish(wr, IF wr.done > 0 THEN wr.done ELSE -1)
                /\ UNCHANGED <<buf, sent, news>>
           ELSE IF buf < Cap
           THEN LET m == Min(wr.n - wr.done, Cap - buf) IN
                /\ buf' = buf + m /\ sent' = sent + m /\ news' = news \cup {"r"}
                /\ wr' = IF ~wr.whole \/ wr.done + m = wr.n
                         THEN Finish([wr EXCEPT !.done = @ + m], wr.done + m)
                         ELSE [wr EXCEPT !.done = @ + m]
           ELSE wr' = [wr EXCEPT !.pc = "wait"] /\ UNCHANGED <<buf, sent, news>>
        /\ UNCHANGED <<ended, broken, got, rd>>
RetR == rd.pc = "ret" /\ rd' = Idle /\ UNCHANGED <<buf, ended, broken, sent, got, wr, news>>
RetW == wr.pc = "ret" /\ wr' = Idle /\ UNCHANGED <<buf, ended, broken, sent, got, rd, news>>
\* a poll reports readiness: a task that waits tries again
Report == /\ news # {} /\ news' = {}
          /\ rd' = IF "r" \in news /\ rd.pc = "wait" THEN [rd EXCEPT !.pc = "try"] ELSE rd
          /\ wr' = IF "w" \in news /\ wr.pc = "wait" THEN [wr EXCEPT !.pc = "try"] ELSE wr
          /\ UNCHANGED <<buf, ended, broken, sent, got>>
Stray == /\ \/ rd.pc = "wait" /\ rd' = [rd EXCEPT !.pc = "try"] /\ UNCHANGED wr
            \/ wr.pc = "wait" /\ wr' = [wr EXCEPT !.pc = "try"] /\ UNCHANGED rd
         /\ UNCHANGED <<buf, ended, broken, sent, got, news>>
Abort == /\ \/ rd.pc = "wait" /\ rd' = Finish(rd, -2) /\ UNCHANGED wr
            \/ wr.pc = "wait" /\ wr' = Finish(wr, -2) /\ UNCHANGED rd
         /\ UNCHANGED <<buf, ended, broken, sent, got, news>>
\* the other side without the library
Put == /\ ~ended /\ ~broken /\ sent < Limit /\ buf < Cap
       /\ buf' = buf + 1 /\ sent' = sent + 1 /\ news' = news \cup {"r"}
       /\ UNCHANGED <<ended, broken, got, rd, wr>>
Get == /\ ~broken /\ buf > 0 /\ buf' = buf - 1 /\ got' = got + 1
       /\ news' = news \cup OutNews(buf, buf - 1)
       /\ UNCHANGED <<ended, broken, sent, rd, wr>>
End == /\ ~ended /\ wr.pc = "idle" /\ ended' = TRUE /\ news' = news \cup {"r"}
       /\ UNCHANGED <<buf, broken, sent, got, rd, wr>>
Break == /\ ~broken /\ rd.pc = "idle" /\ broken' = TRUE /\ news' = news \cup {"w"}
         /\ UNCHANGED <<buf, ended, sent, got, rd, wr>>
Next == (~broken /\ StartR) \/ (~ended /\ StartW) \/ TryR \/ TryW \/ RetR \/ RetW \/ Report
        \/ Stray \/ Abort \/ Put \/ Get \/ End \/ Break
Spec == Init /\ [][Next]_vars /\ WF_vars(TryR) /\ WF_vars(TryW) /\ WF_vars(Report)

\* results, at the moment they are decided
Results == [][/\ rd.pc = "try" /\ rd'.pc = "ret" =>
                   ReadOK(rd.n, rd.whole, rd'.res, buf', ended, FALSE)
              /\ wr.pc = "try" /\ wr'.pc = "ret" =>
                   WriteOK(wr.n, wr.whole, wr'.res, Room(buf'), broken)]_vars
\* a call starts waiting only when nothing can be done
WaitsOnly == [][/\ rd.pc = "try" /\ rd'.pc = "wait" => ~CanRead(buf', ended, FALSE)
                /\ wr.pc = "try" /\ wr'.pc = "wait" => ~CanWrite(Room(buf'), broken)]_vars
\* and is not left waiting when something can be done
NotMissed == (news = {}) =>
    /\ rd.pc = "wait" => ~CanRead(buf, ended, FALSE)
    /\ wr.pc = "wait" => ~CanWrite(Room(buf), broken)
\* a call given up after waiting for a single transfer moved nothing
GivenUp == /\ rd.pc = "ret" /\ rd.res = -2 /\ ~rd.whole => rd.done = 0
           /\ wr.pc = "ret" /\ wr.res = -2 /\ ~wr.whole => wr.done = 0
Conserved == sent = got + buf
\* whoever waits while something stays possible gets on
GetsOn == (rd.pc = "wait" /\ CanRead(buf, ended, FALSE)) ~> (rd.pc # "wait" \/ ~CanRead(buf, ended, FALSE))
=============================================================================
