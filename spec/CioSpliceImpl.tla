--------------------------- MODULE CioSpliceImpl ----------------------------
(***************************************************************************)
(* The forwarding loop, one direction of it in full, the other one as      *)
(* something that sometimes has to do.  ib and ob are the rings of         *)
(* buffering stages on both sides, mid the ring of the loop.               *)
(***************************************************************************)
EXTENDS CioSplice
CONSTANTS IB, OB, Buf, Total
VARIABLES inq, eof, ib, mid, ob, room, fblk, dirty, arrived,
          pend, pc, woken, got
vars == <<inq, eof, ib, mid, ob, room, fblk, dirty, arrived, pend, pc, woken, got>>
Init == /\ inq = 0 /\ eof = FALSE /\ ib = 0 /\ mid = 0 /\ ob = 0 /\ room = 0 /\ fblk \in BOOLEAN
        /\ dirty = FALSE /\ arrived = 0 /\ pend = FALSE /\ pc = "run" /\ woken = FALSE /\ got = 0
Min(x, y) == IF x < y THEN x ELSE y
\* one read of at most n: amount, -1 again, 0 end
Taken(n) == IF ib > 0 THEN Min(n, ib) ELSE IF inq > 0 THEN Min(n, IF IB = 0 THEN inq ELSE Min(inq, IB))
            ELSE IF eof THEN 0 ELSE -1
\* the ring of the output stage after passing on what fits
ObAfter == IF OB = 0 THEN 0 ELSE ob - Min(ob, room)
Round(other) ==
    LET n == Buf - mid
        r == IF n > 0 THEN Taken(n) ELSE -2
        fresh == ib = 0 /\ r > 0
        fill == IF fresh THEN Min(inq, IF IB = 0 THEN r ELSE IB) ELSE 0
        mid1 == IF r > 0 THEN mid + r ELSE mid
        res1 == IF r = -2 \/ r > 0 THEN 1 ELSE IF r = -1 THEN 0 ELSE -1
        \* writing: the output stage passes on when it is full
        full == OB > 0 /\ ob = OB
        pass == IF mid1 > 0 /\ full THEN Min(ob, room) ELSE 0
        ob1 == ob - pass
        room1 == room - pass
        w == IF mid1 = 0 THEN 0
             ELSE IF OB = 0 THEN Min(mid1, room1)
             ELSE IF full /\ ob1 > 0 THEN 0 ELSE Min(mid1, OB - ob1)
        room2 == IF OB = 0 THEN room1 - w ELSE room1
        ob2 == IF OB = 0 THEN 0 ELSE ob1 + w
        res2 == IF mid1 = 0 THEN res1 ELSE IF w > 0 THEN 1 ELSE 0
        pend1 == pend \/ w > 0
        \* flushing
        fl == IF pend1 THEN Min(ob2, room2) ELSE 0
        ob3 == ob2 - fl
        clean == pend1 /\ ob3 = 0 /\ ~fblk
        res3 == IF pend1 /\ ~clean /\ res2 < 0 THEN 0 ELSE res2
    IN /\ pc = "run"
       /\ inq' = inq - fill /\ ib' = IF r > 0 THEN (IF IB = 0 THEN 0 ELSE ib + fill - r) ELSE ib
       /\ mid' = mid1 - w /\ ob' = ob3 /\ room' = room2 - fl
       /\ dirty' = IF clean THEN FALSE ELSE dirty \/ pass > 0 \/ fl > 0 \/ (OB = 0 /\ w > 0)
       /\ pend' = (pend1 /\ ~clean)
       /\ got' = got + pass + fl + (IF OB = 0 THEN w ELSE 0)
       /\ pc' = IF res3 < 0 THEN "end" ELSE IF res3 > 0 \/ other THEN "run" ELSE "wait"
       /\ woken' = FALSE /\ UNCHANGED <<eof, fblk, arrived>>
Env(w) == woken' = (woken \/ w) /\ UNCHANGED <<ib, mid, ob, dirty, pend, pc, got>>
Put == arrived < Total /\ ~eof /\ arrived' = arrived + 1 /\ inq' = inq + 1 /\ Env(TRUE) /\ UNCHANGED <<eof, room, fblk>>
End == ~eof /\ eof' = TRUE /\ Env(TRUE) /\ UNCHANGED <<inq, room, fblk, arrived>>
Room == room < 2 /\ room' = room + 1 /\ Env(room = 0) /\ UNCHANGED <<inq, eof, fblk, arrived>>
Block == ~fblk /\ fblk' = TRUE /\ Env(FALSE) /\ UNCHANGED <<inq, eof, room, arrived>>
Unblock == fblk /\ fblk' = FALSE /\ Env(TRUE) /\ UNCHANGED <<inq, eof, room, arrived>>
Stray == pc = "wait" /\ ~woken /\ Env(TRUE) /\ UNCHANGED <<inq, eof, room, fblk, arrived>>
Wake == pc = "wait" /\ woken /\ pc' = "run" /\ woken' = FALSE
        /\ UNCHANGED <<inq, eof, ib, mid, ob, room, fblk, dirty, arrived, pend, got>>
Next == (\E x \in BOOLEAN : Round(x)) \/ Put \/ End \/ Room \/ Block \/ Unblock \/ Stray \/ Wake
Spec == Init /\ [][Next]_vars /\ WF_vars(Round(FALSE)) /\ WF_vars(Wake)

Seen == [u |-> inq, held |-> ib + mid + ob, over |-> eof, room |-> room > 0, dirty |-> dirty,
         fblk |-> fblk, fail |-> FALSE, keep |-> OB, dead |-> FALSE]
Count == got + ib + mid + ob + inq = arrived /\ mid <= Buf /\ ob <= OB /\ ib <= IB
Rest == (pc = "wait" /\ ~woken) => SleepOK(Seen) /\ ~Over(Seen)
ReturnStep == [][pc # "end" /\ pc' = "end" => Over(Seen)']_vars
=============================================================================
