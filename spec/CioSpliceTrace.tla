--------------------------- MODULE CioSpliceTrace ---------------------------
(***************************************************************************)
(* Recorded executions of a task forwarding between two stacks of stages.  *)
(* The state of both lower ends is recorded whenever the task cannot go on *)
(* and when it returns.                                                    *)
(***************************************************************************)
EXTENDS TraceIO, CioSplice

VARIABLES was, over      \* the state recorded last, the task returned
vars_ == <<was, over>>
TraceInit == TInit /\ was = <<>> /\ over = FALSE

\* each side: bytes to read, end, input error, bytes read, room, output error,
\* bytes written, not flushable, bytes not flushed
Dir(i, o) == LET x == Cur.x IN
    [u |-> x[i + 1], held |-> x[i + 4] - x[o + 7], over |-> x[i + 2] = 1 \/ x[i + 3] = 1,
     room |-> x[o + 5] = 1, dirty |-> x[o + 9] > 0, fblk |-> x[o + 8] = 1,
     keep |-> Traces[tid].keep[IF o = 0 THEN 1 ELSE 2], dead |-> x[o + 6] = 1, fail |-> x[o + 6] = 1 \/ (x[i + 3] = 1 /\ x[i + 1] = 0)]
F == Dir(0, 9)
B == Dir(9, 0)
\* nothing is delivered that was not taken
Sane == F.held >= 0 /\ B.held >= 0
Quiet == IsEv("quiet") /\ ~over /\ Sane /\ RestOK(F, B) /\ was' = Cur.x /\ UNCHANGED over
Ret == /\ IsEv("ret") /\ ~over /\ over' = TRUE /\ Sane /\ UNCHANGED was
       /\ Cur.b = 1 \/ ReturnOK(F, B)
Other == More /\ Cur.e \in {"note", "final"} /\ UNCHANGED vars_
Step == Quiet \/ Ret \/ Other
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED vars_)
=============================================================================
