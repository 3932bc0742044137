---------------------------- MODULE ChannelTrace ----------------------------
(***************************************************************************)
(* Recorded executions of channels and channel selection.  The trace       *)
(* header gives capacity and message size of every channel; ends 2i and    *)
(* 2i+1 belong to channel i.  A read reports in c the number of the        *)
(* message its bytes belong to (0 for an empty message, 9999 for bytes     *)
(* that are not a prefix of any message or a write outside the buffer).    *)
(***************************************************************************)
EXTENDS TraceIO

NT == CHOOSE n \in 0..400 : \A i \in 1..Len(Traces) : Traces[i].n <= n
          /\ \E j \in 1..Len(Traces) : Traces[j].n = n
TTasks == 1..NT
TEnds == 0..31
TSets == 0..7
TPeer(e) == IF e % 2 = 0 THEN e + 1 ELSE e - 1
NoCaps == [e \in TEnds |-> 0]
VARIABLES open, q, op, set, cap, size, now, dl, wk
C == INSTANCE Channel WITH Tasks <- TTasks, Ends <- TEnds, Sets <- TSets, Peer <- TPeer,
                           Ids <- {}, Lens <- {}
cv == <<open, q, op, set>>
av == <<open, q, op, set, cap, size, now, dl, wk>>

Conf(f, e) == IF e \div 2 < Len(f) THEN f[e \div 2 + 1] ELSE 0
TraceInit == /\ TInit /\ C!Init /\ now = <<0, 0>>
             /\ cap = [e \in TEnds |-> Conf(Traces[tid].cap, e)]
             /\ size = [e \in TEnds |-> Conf(Traces[tid].size, e)]
             /\ dl = [t \in TTasks |-> <<0, 0>>]
             /\ wk = 0

Fix == UNCHANGED <<cap, size>>
Same == Fix /\ UNCHANGED <<now, dl>> /\ wk' = wk + 1
Got(m) == Cur.r = C!Min(m.n, Cur.b) /\ Cur.c = (IF Cur.r = 0 THEN 0 ELSE m.id)
Kind == IF Cur.o = "selr" THEN "sr" ELSE "sw"
IsSel == More /\ Cur.o \in {"selr", "selw"}
Timed == Cur.b > 0

\* one millisecond may be lost per wakeup that found nothing: wk counts
\* everything that may have caused one
Passed(t) == LET n == (wk - dl[t][3]) IN
             TLeq(<<dl[t][1], dl[t][2]>>, TAdd(now, 0, IF n < 900 THEN n * 1000000 ELSE 900000000))
QuietNow == /\ C!NoneStuck
            /\ \A t \in TTasks : (op[t].k \in {"sr", "sw"} /\ Len(dl[t]) = 3) =>
                  TLt(now, dl[t]) /\ Cur.a = 1 /\ TLeq(<<Cur.b, Cur.c>>, dl[t])
            /\ UNCHANGED av

Step ==
    \/ /\ IsOp("chw") /\ Cur.r >= 0 /\ Cur.r = C!Stored(Cur.a, Cur.b)
       /\ C!WriteNow(Cur.t, Cur.a, Cur.c, Cur.b) /\ Same
    \/ IsOp("chw") /\ Cur.r = -1 /\ C!WriteClosed(Cur.t, Cur.a) /\ Same
    \/ IsCall("chw") /\ C!WriteCall(Cur.t, Cur.a, Cur.c, Cur.b) /\ Same
    \/ IsRet("chw") /\ Cur.r >= 0 /\ Cur.r = C!Stored(Cur.a, Cur.b) /\ C!WriteRet(Cur.t) /\ Same
    \/ IsRet("chw") /\ Cur.r = -1 /\ C!WriteFail(Cur.t) /\ Same
    \/ IsOp("chr") /\ Cur.r >= 0 /\ C!ReadNow(Cur.t, Cur.a) /\ Got(Head(q[Cur.a])) /\ Same
    \/ IsOp("chr") /\ Cur.r = -1 /\ Cur.c = 0 /\ C!ReadClosed(Cur.t, Cur.a) /\ Same
    \/ IsCall("chr") /\ C!ReadCall(Cur.t, Cur.a) /\ Same
    \/ IsRet("chr") /\ Cur.r >= 0 /\ C!ReadRet(Cur.t) /\ Got(Head(q[Cur.a])) /\ Same
    \/ IsRet("chr") /\ Cur.r = -1 /\ Cur.c = 0 /\ C!ReadFail(Cur.t) /\ Same
    \/ IsOp("chd") /\ C!Close(Cur.t, Cur.a) /\ Same
    \/ IsOp("seladd") /\ C!SelAdd(Cur.t, Cur.a, Cur.b) /\ Same
    \/ IsOp("seldel") /\ C!SelDel(Cur.t, Cur.a, Cur.b) /\ Same
    \/ IsSel /\ Cur.e = "op" /\ Cur.r >= 0 /\ C!SelNow(Cur.t, Kind, Cur.a, Cur.r) /\ Same
    \/ IsSel /\ Cur.e = "op" /\ Cur.r = -1 /\ C!SelNone(Cur.t, Kind, Cur.a, Cur.b = 0) /\ Same
    \/ /\ IsSel /\ Cur.e = "call" /\ Cur.b # 0 /\ C!SelCall(Cur.t, Kind, Cur.a)
       /\ dl' = [dl EXCEPT ![Cur.t] =
             IF Timed THEN TAdd(now, Cur.b \div 1000, (Cur.b % 1000) * 1000000) \o <<wk>>
             ELSE <<0, 0>>]
       /\ wk' = wk + 1 /\ Fix /\ UNCHANGED now
    \/ IsSel /\ Cur.e = "ret" /\ Cur.r >= 0 /\ C!SelRet(Cur.t, Cur.r) /\ Same
    \/ IsSel /\ Cur.e = "ret" /\ Cur.r = -1 /\ Timed /\ C!SelTimeout(Cur.t) /\ Passed(Cur.t) /\ Same
    \/ IsOp("wake") /\ UNCHANGED cv /\ Same
    \/ (IsEv("quiet") \/ IsEv("final")) /\ QuietNow
    \/ IsEv("time") /\ now' = <<Cur.a, Cur.b>> /\ UNCHANGED <<cv, cap, size, dl, wk>>
    \/ More /\ Cur.e \in {"start", "done", "sysret", "note"} /\ UNCHANGED av
    \/ More /\ Cur.o \in {"yield", "sleep", "usleep", "spawn"} /\ UNCHANGED av

TraceNext == \/ Step /\ Eat
             \/ Accepted /\ UNCHANGED av
=============================================================================
