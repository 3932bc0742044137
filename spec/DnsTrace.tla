------------------------------ MODULE DnsTrace ------------------------------
(***************************************************************************)
(* Recorded lookups.  The script says in "q" what the resolver answers:    *)
(* query -> <<result, errno>>.  A successful answer carries the number of  *)
(* its query (x[2]).                                                       *)
(***************************************************************************)
EXTENDS TraceIO, Dns

VARIABLES starved,     \* askers during whose call a resource was refused
          up,          \* threads with a task system
          left         \* thread -> what was left after its last system
tv == <<asked, seen, helper, starved, up, left>>

TraceInit == TInit /\ DInit /\ starved = {} /\ up = {} /\ left = [t \in 1..8 |-> <<>>]

A == 10 * Cur.a + Cur.b
Q == Cur.c
Want(q) == Traces[tid].q[q]

CallSys == IsCall("system") /\ Cur.a \notin up /\ up' = up \cup {Cur.a} /\ UNCHANGED <<dvars, starved, left>>
\* the run ends when nothing is asked any more
Ran == /\ IsOp("ran") /\ (\A a \in Askers : a \div 10 = Cur.a => asked[a] = 0) /\ UNCHANGED tv
\* a thread that started the helper may keep something for it, but not more and more
RetSys == /\ IsRet("system") /\ Cur.a \in up /\ up' = up \ {Cur.a}
          /\ left' = [left EXCEPT ![Cur.a] = <<Cur.b, Cur.c>>]
          /\ (IF left[Cur.a] = <<>> \/ Traces[tid].lean = 0 THEN TRUE ELSE left[Cur.a] = <<Cur.b, Cur.c>>)
          /\ UNCHANGED <<dvars, starved>>

CallLookup == IsCall("lookup") /\ Cur.a \in up /\ Ask(A, Q) /\ starved' = starved \ {A} /\ UNCHANGED <<up, left>>
\* the helper was given the arguments of the query (c)
Look == IsEv("look") /\ Cur.c = 1 /\ Resolve(Cur.a, Cur.b) /\ UNCHANGED <<starved, up, left>>
RetLookup ==
    /\ IsRet("lookup")
    /\ IF A \in starved /\ Q \notin seen
       THEN Refuse(A, Q) /\ Cur.r = -11 /\ Cur.x[2] = 0
       ELSE /\ Answer(A, Q)
            /\ Cur.r = Want(Q)[1] /\ Cur.x[1] = Want(Q)[2]
            /\ Cur.x[2] = (IF Cur.r = 0 THEN Q ELSE 0)
    /\ UNCHANGED <<starved, up, left>>
Refused == IsEv("note") /\ Cur.o = "refuse" /\ starved' = starved \cup {a \in Askers : asked[a] # 0}
           /\ UNCHANGED <<dvars, up, left>>
Open == IsOp("open") /\ UNCHANGED tv
Final == IsEv("final") /\ up = {} /\ UNCHANGED tv

Step == CallSys \/ Ran \/ RetSys \/ CallLookup \/ Look \/ RetLookup \/ Refused \/ Open \/ Final
TraceNext == (Step /\ Eat) \/ (Accepted /\ UNCHANGED tv)
=============================================================================
