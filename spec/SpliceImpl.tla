----------------------------- MODULE SpliceImpl -----------------------------
(***************************************************************************)
(* The forwarding loop: each round takes what the input has and the buffer *)
(* can hold, then gives what the output accepts; both may move less.  A    *)
(* round in which nothing moved in either direction waits for readiness,   *)
(* which is reported when it starts (edge-triggered), possibly after the   *)
(* call went to sleep only.  Two directions 1, 2.                          *)
(***************************************************************************)
EXTENDS Splice, FiniteSets
CONSTANTS Buf,      \* capacity of the buffer in between
          Cap, Low, \* of the output; it becomes writable at Low
          Total     \* bytes that can arrive in one direction
Dir == {1, 2}
VARIABLES inq, eof, held, outq, broken,  \* per direction
          came,                          \* bytes that arrived
          res, pc, woken, shared, right
vars == <<inq, eof, held, outq, broken, came, res, pc, woken, shared, right>>

Init == /\ inq = [d \in Dir |-> 0] /\ held = inq /\ outq = inq /\ came = inq
        /\ eof = [d \in Dir |-> FALSE] /\ broken = eof
        /\ res = [d \in Dir |-> 1] /\ pc = "f" /\ woken = FALSE /\ shared \in BOOLEAN
        /\ right = TRUE

See(d) == [u |-> inq[d], held |-> held[d], eof |-> eof[d],
           room |-> outq[d] <= Low, fail |-> broken[d], dead |-> broken[d]]
Min(x, y) == IF x < y THEN x ELSE y
\* one round of one direction: r taken, w given
Move(d, r, w) ==
    LET full == held[d] = Buf
        took == IF full THEN 0 ELSE r
        h == held[d] + took
        first == IF full THEN 1 ELSE IF took > 0 THEN 1 ELSE IF inq[d] = 0 /\ eof[d] THEN -1 ELSE 0
        second == IF h = 0 THEN first ELSE IF broken[d] THEN -1 ELSE IF w > 0 THEN 1 ELSE 0
    IN  /\ r <= Min(inq[d], Buf - held[d]) /\ (r = 0 => Min(inq[d], Buf - held[d]) = 0)
        /\ w <= Min(h, Cap - outq[d]) /\ (w = 0 => (Min(h, Cap - outq[d]) = 0 \/ broken[d]))
        /\ (broken[d] => w = 0)
        /\ inq' = [inq EXCEPT ![d] = @ - took]
        /\ held' = [held EXCEPT ![d] = h - w]
        /\ outq' = [outq EXCEPT ![d] = @ + w]
        /\ res' = [res EXCEPT ![d] = second]
Round(d) == /\ pc = (IF d = 1 THEN "f" ELSE "b")
            /\ pc' = (IF d = 1 THEN "b" ELSE "decide")
            /\ IF res[d] < 0 THEN UNCHANGED <<inq, held, outq, res>>
               ELSE \E r \in 0..Buf, w \in 0..Buf : Move(d, r, w)
            /\ UNCHANGED <<eof, broken, came, woken, shared, right>>
Ended == Both(shared, res[1] < 0, res[2] < 0)
Decide == /\ pc = "decide"
          /\ IF Ended THEN pc' = "done" /\ right' = ReturnOK(See(1), See(2), shared)
             ELSE /\ pc' = (IF res[1] > 0 \/ res[2] > 0 THEN "f" ELSE "wait")
                  /\ UNCHANGED right
          /\ UNCHANGED <<inq, eof, held, outq, broken, came, res, woken, shared>>
Wake == /\ pc = "wait" /\ woken /\ pc' = "f" /\ woken' = FALSE
        /\ UNCHANGED <<inq, eof, held, outq, broken, came, res, shared, right>>
\* ----------------------------------------------------------- both ends
Alive == pc # "done"
Put(d) == /\ Alive /\ came[d] < Total /\ ~eof[d]
          /\ came' = [came EXCEPT ![d] = @ + 1] /\ inq' = [inq EXCEPT ![d] = @ + 1]
          /\ woken' = TRUE /\ UNCHANGED <<eof, held, outq, broken, res, pc, shared, right>>
End(d) == /\ Alive /\ ~eof[d] /\ eof' = [eof EXCEPT ![d] = TRUE] /\ woken' = TRUE
          /\ UNCHANGED <<inq, held, outq, broken, came, res, pc, shared, right>>
Drain(d) == /\ Alive /\ outq[d] > 0 /\ ~broken[d] /\ outq' = [outq EXCEPT ![d] = @ - 1]
            /\ woken' = (woken \/ outq[d] = Low + 1)
            /\ UNCHANGED <<inq, eof, held, broken, came, res, pc, shared, right>>
Break(d) == /\ Alive /\ ~broken[d] /\ broken' = [broken EXCEPT ![d] = TRUE] /\ woken' = TRUE
            /\ UNCHANGED <<inq, eof, held, outq, came, res, pc, shared, right>>
Stray == /\ pc = "wait" /\ ~woken /\ woken' = TRUE
         /\ UNCHANGED <<inq, eof, held, outq, broken, came, res, pc, shared, right>>

Next == \/ Decide \/ Wake \/ Stray
        \/ \E d \in Dir : Round(d) \/ Put(d) \/ End(d) \/ Drain(d) \/ Break(d)
Spec == Init /\ [][Next]_vars

Returned == right
Resting == pc = "wait" /\ ~woken => RestOK(See(1), See(2), shared)
Bounded == \A d \in Dir : held[d] \in 0..Buf /\ outq[d] \in 0..Cap
=============================================================================
