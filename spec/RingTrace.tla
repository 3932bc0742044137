----------------------------- MODULE RingTrace ------------------------------
EXTENDS TraceIO, Ring
VARIABLES cap, size, q, off, refs     \* off: what was offered last
vars_ == <<cap, size, q, off, refs>>
TraceInit == TInit /\ cap = 0 /\ size = 0 /\ q = <<>> /\ off = <<>> /\ refs = 0

X == [i \in 1..Cur.b |-> <<Cur.x[2 * i - 1], Cur.x[2 * i]>>]
Offered == IF Cur.b = 0 THEN <<>> ELSE X
New == /\ IsOp("cnew") /\ q' = <<>> /\ off' = <<>>
       /\ IF Cur.a = -1 THEN Cur.r = 0 /\ cap' = 0 /\ size' = 0 /\ refs' = 0   \* cannot be had
          ELSE Cur.r = 1 /\ cap' = Cur.a /\ size' = Cur.b /\ refs' = 1
Sizes(n) == Cur.c = n /\ Cur.r = cap
\* offered only to look at: what was offered before stays committable
Look == /\ IsOp("writing") /\ Cur.a = -1 /\ WriteOK(Offered, q, cap) /\ Sizes(Sum(q))
        /\ \A i \in DOMAIN Offered : Inside(Offered[i], 0, size)
        /\ UNCHANGED vars_
Writing == /\ IsOp("writing") /\ Cur.a # -1 /\ WriteOK(Offered, q, cap) /\ Sizes(Sum(q))
           /\ \A i \in DOMAIN Offered : Inside(Offered[i], 0, size)
           /\ off' = Offered /\ UNCHANGED <<cap, size, q, refs>>
Wrote == /\ IsOp("wrote") /\ q' = Written(q, off, Cur.a) /\ Sizes(Sum(q) + Cur.a)
         /\ off' = <<>> /\ UNCHANGED <<cap, size, refs>>
Reading == IsOp("reading") /\ ReadOK(Offered, q) /\ Sizes(Sum(q)) /\ UNCHANGED vars_
ReadIt == /\ IsOp("read") /\ q' = Taken(q, Cur.a) /\ Sizes(Sum(q) - Cur.a)
          /\ UNCHANGED <<cap, size, off, refs>>
Ref == IsOp("cref") /\ Cur.r = 1 /\ refs' = refs + 1 /\ UNCHANGED <<cap, size, q, off>>
Unref == /\ IsOp("cunref") /\ refs' = refs - 1 /\ (Cur.r = 1 <=> refs = 1)
         /\ UNCHANGED <<cap, size, q, off>>
Step == New \/ Look \/ Writing \/ Wrote \/ Reading \/ ReadIt \/ Ref \/ Unref \/ (IsEv("final") /\ UNCHANGED vars_)
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED vars_)
=============================================================================
