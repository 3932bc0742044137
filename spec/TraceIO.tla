------------------------------ MODULE TraceIO ------------------------------
(***************************************************************************)
(* Reading recorded executions.  A trace file has one JSON object per      *)
(* line, each with a sequence "ev" of events.  A trace specification       *)
(* EXTENDS this module, starts in a state for every trace and consumes one *)
(* event per step; a trace all of whose events can be consumed prints ACC. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VT_TRACES)

VARIABLES tid, l     \* which trace, position of the next event

Len_(t) == Len(Traces[t].ev)
Cur == Traces[tid].ev[l]
More == l <= Len_(tid)
Diag == IF IOEnv.VT_DIAG = "1" THEN PrintT(<<"AT", l>>) ELSE TRUE

TInit == tid \in 1..Len(Traces) /\ l = 1
\* conjoin to the action that explains the current event
Eat == /\ tid' = tid /\ l' = l + 1 /\ Diag
Accepted == /\ l = Len_(tid) + 1
            /\ PrintT(<<"ACC", tid>>)
            /\ l' = l + 1 /\ tid' = tid

IsEv(e) == More /\ Cur.e = e
IsCall(o) == More /\ Cur.e = "call" /\ Cur.o = o
IsRet(o) == More /\ Cur.e = "ret" /\ Cur.o = o
IsOp(o) == More /\ Cur.e = "op" /\ Cur.o = o

\* time as <<seconds, nanoseconds>>
TLeq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
TLt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
TAdd(x, s, n) == LET m == x[2] + n IN
    IF m >= 1000000000 THEN <<x[1] + s + 1, m - 1000000000>>
                       ELSE <<x[1] + s, m>>
\* y - x for y >= x
TSub(y, x) == IF y[2] >= x[2] THEN <<y[1] - x[1], y[2] - x[2]>>
              ELSE <<y[1] - x[1] - 1, y[2] + 1000000000 - x[2]>>
=============================================================================
