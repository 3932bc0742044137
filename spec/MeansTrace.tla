---------------------------- MODULE MeansTrace ----------------------------
(***************************************************************************)
(* Recorded executions of creating calls.  Events "call" and "ret" carry   *)
(* what is held (x: blocks, pages, descriptors), and "refused" is recorded *)
(* whenever a request of the call was refused.  With the library's own     *)
(* allocator (slice = 1) freed blocks stay with it, so that blocks count   *)
(* only at the end.  b: descriptors the caller handed over; they go with   *)
(* the thing if the call succeeds and stay with the caller if not.         *)
(***************************************************************************)
EXTENDS TraceIO, Means

VARIABLES refused, before, base

tv == <<cost, busy, refused, before, base>>
Slice == Traces[tid].slice = 1
H == [mem |-> IF Slice THEN 0 ELSE Cur.x[1], page |-> Cur.x[2], fd |-> Cur.x[3]]
Minus(x, y) == [k \in Kinds |-> x[k] - y[k]]
And(x, y) == [k \in Kinds |-> x[k] + y[k]]
Given(n) == [None EXCEPT !["fd"] = n]
\* what the running system itself holds is whatever it was at the first call
Base == IF base = <<>> THEN H ELSE base

TraceInit == TInit /\ MeansInit /\ refused = FALSE /\ before = None /\ base = <<>>

CallNew == /\ IsCall("new") /\ Start(Cur.a + 1)
           /\ LET h == Minus(H, Given(Cur.b)) IN
              /\ (IF base = <<>> THEN TRUE ELSE h = And(base, Total))
              /\ base' = IF base = <<>> THEN h ELSE base
              /\ before' = h
           /\ refused' = FALSE
Refused == IsEv("refused") /\ ~refused /\ refused' = TRUE /\ UNCHANGED <<cost, busy, before, base>>
\* c: the request is one nobody can fulfil
RetNew == /\ IsRet("new")
          /\ IF Cur.r = 0
             THEN /\ Made(Cur.a + 1, Minus(H, before))
                  /\ \A k \in Kinds : H[k] >= before[k]
             ELSE /\ (IF refused \/ Cur.c = 1 THEN TRUE ELSE FALSE)
                  /\ Failed(Cur.a + 1)
                  /\ H = And(before, Given(Cur.b))
          /\ UNCHANGED <<refused, before, base>>
Back == IsOp("back") /\ busy = 0 /\ H = And(base, Total) /\ UNCHANGED tv

CallUse == /\ IsCall("use") /\ busy = 0 /\ Cur.a + 1 \in DOMAIN cost
           /\ H = And(base, Total) /\ UNCHANGED tv
RetUse == IsRet("use") /\ Cur.r = 1 /\ H = And(base, Total) /\ UNCHANGED tv
CallDel == /\ IsCall("del") /\ busy = 0 /\ Cur.a + 1 \in DOMAIN cost
           /\ H = And(base, Total) /\ UNCHANGED tv
RetDel == /\ IsRet("del") /\ GiveUp(Cur.a + 1)
          /\ UNCHANGED <<refused, before, base>>
\* what is held now is checked at the next call
CallOnce == /\ IsCall("once") /\ busy = 0 /\ busy' = -1
            /\ before' = H /\ refused' = FALSE /\ UNCHANGED <<cost, base>>
RetOnce == /\ IsRet("once") /\ busy = -1 /\ busy' = -2 /\ H = before
           /\ UNCHANGED <<cost, refused, before, base>>
Moved == /\ IsOp("moved") /\ busy = -2 /\ busy' = 0
         /\ (IF Cur.a = 1 THEN TRUE ELSE Cur.a = 0 /\ refused)
         /\ UNCHANGED <<cost, refused, before, base>>
\* after the system was finished nothing is left
End == IsOp("end") /\ busy = 0 /\ Cur.x = <<0, 0, 0>> /\ UNCHANGED tv
Final == IsEv("final") /\ UNCHANGED tv

Step == CallNew \/ Refused \/ RetNew \/ Back \/ CallUse \/ RetUse \/ CallDel \/ RetDel
        \/ CallOnce \/ RetOnce \/ Moved \/ End \/ Final
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED tv)
=============================================================================
