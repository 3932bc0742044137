------------------------------ MODULE Channel ------------------------------
(***************************************************************************)
(* Contract of channels and channel selection.                             *)
(*   open[e]  end e has not been destroyed                                 *)
(*   q[e]     messages written by the other end and not yet read at e      *)
(*   op[t]    what task t is blocked in: [k |-> kind, e |-> end or set]    *)
(*   set[s]   ends watched by select set s                                 *)
(* cap[e]: messages a direction holds without making the writer wait;      *)
(* size[e]: limit of a message.  An unbuffered channel has cap 0 and no    *)
(* size limit.  One task uses an end at a time (the program's duty).       *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Tasks, Ends, Sets, Peer(_), Ids, Lens
VARIABLES open, q, op, set,
          cap, size       \* fixed when the channel is made
vars == <<open, q, op, set>>

Free == [k |-> "none", e |-> 0]
Init == /\ open = [e \in Ends |-> TRUE]
        /\ q = [e \in Ends |-> <<>>]
        /\ op = [t \in Tasks |-> Free]
        /\ set = [s \in Sets |-> {}]

Min(a, b) == IF a < b THEN a ELSE b
Stored(e, n) == IF cap[e] = 0 THEN n ELSE Min(n, size[e])
InUse(e) == \E t \in Tasks : op[t].k \in {"r", "w"} /\ op[t].e = e
Usable(t, e) == op[t] = Free /\ open[e] /\ ~InUse(e)
Full(e) == Len(q[Peer(e)]) >= cap[e]          \* for a writer at e
Block(t, k, e) == op' = [op EXCEPT ![t] = [k |-> k, e |-> e]]
Unblock(t) == op' = [op EXCEPT ![t] = Free]

Put(e, id, n) == q' = [q EXCEPT ![Peer(e)] = Append(@, [id |-> id, n |-> Stored(e, n)])]

WriteNow(t, e, id, n) == /\ Usable(t, e) /\ open[Peer(e)] /\ ~Full(e)
                         /\ Put(e, id, n) /\ UNCHANGED <<open, op, set>>
WriteClosed(t, e) == Usable(t, e) /\ ~open[Peer(e)] /\ UNCHANGED vars
WriteCall(t, e, id, n) == /\ Usable(t, e) /\ open[Peer(e)] /\ Full(e)
                          /\ Put(e, id, n) /\ Block(t, "w", e) /\ UNCHANGED <<open, set>>
Fits(e) == Len(q[Peer(e)]) <= cap[e]
WriteRet(t) == op[t].k = "w" /\ Fits(op[t].e) /\ Unblock(t) /\ UNCHANGED <<open, q, set>>
WriteFail(t) == /\ op[t].k = "w" /\ ~Fits(op[t].e) /\ ~open[Peer(op[t].e)]
                /\ Unblock(t) /\ UNCHANGED <<open, q, set>>

Take(e) == q[e] # <<>> /\ q' = [q EXCEPT ![e] = Tail(@)]
ReadNow(t, e) == Usable(t, e) /\ Take(e) /\ UNCHANGED <<open, op, set>>
ReadClosed(t, e) == Usable(t, e) /\ q[e] = <<>> /\ ~open[Peer(e)] /\ UNCHANGED vars
ReadCall(t, e) == /\ Usable(t, e) /\ q[e] = <<>> /\ open[Peer(e)]
                  /\ Block(t, "r", e) /\ UNCHANGED <<open, q, set>>
ReadRet(t) == op[t].k = "r" /\ Take(op[t].e) /\ Unblock(t) /\ UNCHANGED <<open, set>>
ReadFail(t) == /\ op[t].k = "r" /\ q[op[t].e] = <<>> /\ ~open[Peer(op[t].e)]
               /\ Unblock(t) /\ UNCHANGED <<open, q, set>>

Close(t, e) == /\ Usable(t, e) /\ (\A s \in Sets : e \notin set[s])
               /\ open' = [open EXCEPT ![e] = FALSE] /\ UNCHANGED <<q, op, set>>

SelAdd(t, s, e) == /\ Usable(t, e) /\ (\A x \in Sets : e \notin set[x])
                   /\ set' = [set EXCEPT ![s] = @ \cup {e}] /\ UNCHANGED <<open, q, op>>
SelDel(t, s, e) == /\ Usable(t, e) /\ e \in set[s]
                   /\ set' = [set EXCEPT ![s] = @ \ {e}] /\ UNCHANGED <<open, q, op>>

\* ends a select must not overlook, and ends it may return
MustR(s) == {e \in set[s] : q[e] # <<>>}
MustW(s) == {e \in set[s] : cap[e] > 0 /\ open[Peer(e)] /\ ~Full(e)}
MayW(s) == MustW(s) \cup {e \in set[s] : cap[e] = 0 \/ ~open[Peer(e)]}
Must(k, s) == IF k = "sr" THEN MustR(s) ELSE MustW(s)
May(k, s) == IF k = "sr" THEN MustR(s) ELSE MayW(s)

SelNow(t, k, s, e) == op[t] = Free /\ e \in May(k, s) /\ UNCHANGED vars
SelNone(t, k, s, zero) == /\ op[t] = Free /\ Must(k, s) = {} /\ (zero \/ set[s] = {})
                          /\ UNCHANGED vars
SelCall(t, k, s) == /\ op[t] = Free /\ set[s] # {} /\ Must(k, s) = {}
                    /\ Block(t, k, s) /\ UNCHANGED <<open, q, set>>
SelRet(t, e) == /\ op[t].k \in {"sr", "sw"} /\ e \in May(op[t].k, op[t].e)
                /\ Unblock(t) /\ UNCHANGED <<open, q, set>>
SelTimeout(t) == /\ op[t].k \in {"sr", "sw"} /\ Must(op[t].k, op[t].e) = {}
                 /\ Unblock(t) /\ UNCHANGED <<open, q, set>>

Stuck(t) == \/ op[t].k = "w" /\ (Fits(op[t].e) \/ ~open[Peer(op[t].e)])
            \/ op[t].k = "r" /\ (q[op[t].e] # <<>> \/ ~open[Peer(op[t].e)])
            \/ op[t].k \in {"sr", "sw"} /\ Must(op[t].k, op[t].e) # {}
NoneStuck == \A t \in Tasks : ~Stuck(t)
Quiet == NoneStuck /\ UNCHANGED vars

Next == \/ \E t \in Tasks, e \in Ends, id \in Ids, n \in Lens :
              WriteNow(t, e, id, n) \/ WriteCall(t, e, id, n)
        \/ \E t \in Tasks, e \in Ends : WriteClosed(t, e) \/ ReadNow(t, e)
              \/ ReadClosed(t, e) \/ ReadCall(t, e) \/ Close(t, e)
        \/ \E t \in Tasks : WriteRet(t) \/ WriteFail(t) \/ ReadRet(t) \/ ReadFail(t)
        \/ \E t \in Tasks, s \in Sets, e \in Ends : SelAdd(t, s, e) \/ SelDel(t, s, e)
        \/ \E t \in Tasks, k \in {"sr", "sw"}, s \in Sets : SelCall(t, k, s)
              \/ SelTimeout(t) \/ \E e \in Ends : SelNow(t, k, s, e) \/ SelRet(t, e)
Spec == Init /\ [][Next]_vars

\* never more than one message beyond the capacity
Bounded == \A e \in Ends : Len(q[e]) <= cap[e] + 1
=============================================================================
