----------------------------- MODULE PileTrace ------------------------------
(***************************************************************************)
(* Recorded nests of calls in several tasks.  Frames report their data,    *)
(* registers and results; stacks the memory they may use, checked against  *)
(* all others in use.                                                      *)
(* x: lowest and highest address, each in two parts; guard: tasks' stacks  *)
(* end in inaccessible memory                                              *)
(***************************************************************************)
EXTENDS TraceIO, Stacks
CONSTANT Page
VARIABLES piles, size
vars_ == <<piles, size>>
TTasks == 0..32
TraceInit == TInit /\ piles = [t \in TTasks |-> <<>>] /\ size = [t \in TTasks |-> 0]
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
Piece == IF "x" \in DOMAIN Cur THEN <<<<Cur.x[1], Cur.x[2]>>, <<Cur.x[3], Cur.x[4]>>>> ELSE <<>>

Run == IsEv("run") /\ piles[Cur.a] = <<>> /\ size' = [size EXCEPT ![Cur.a] = Cur.b] /\ UNCHANGED piles
In == /\ IsEv("in") /\ UNCHANGED size
      /\ (Cur.o = "task") <=> (piles[Cur.a] = <<>>)
      /\ (Cur.o \in {"task", "call"}) <=> (Piece # <<>>)
      /\ CanEnter(piles, Piece, Leq)
      /\ piles' = Enter(piles, Cur.a, Frame(Cur.b, Cur.o, Piece))
Out == /\ IsEv("out") /\ UNCHANGED size
       /\ CanLeave(piles, Cur.a, Cur.b, Cur.o)
       /\ Cur.c = 1 /\ Cur.r = Cur.b       \* data intact, its value delivered
       /\ piles' = Leave(piles, Cur.a)
Exit == /\ IsEv("exit") /\ piles[Cur.a] # <<>> /\ piles' = [piles EXCEPT ![Cur.a] = <<>>] /\ UNCHANGED size
\* beyond its size a task finds inaccessible memory before anything else
Over == /\ IsEv("over") /\ piles[Cur.a] # <<>> /\ UNCHANGED vars_
Fault == /\ IsEv("fault") /\ Traces[tid].ev[l - 1].e = "over" /\ Traces[tid].ev[l - 1].a = Cur.a
         /\ Cur.c = 1 /\ Cur.b >= size[Cur.a] - 512 /\ Cur.b <= size[Cur.a] + 4 * Page
         /\ UNCHANGED vars_
Final == /\ IsEv("final") /\ UNCHANGED vars_
         /\ Cur.o = "fault" \/ \A t \in TTasks : piles[t] = <<>>
Step == Run \/ In \/ Out \/ Exit \/ Over \/ Fault \/ Final
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED vars_)
=============================================================================
