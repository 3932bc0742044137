------------------------------ MODULE RingImpl ------------------------------
(***************************************************************************)
(* Start position and length in an array of cap bytes; every reachable     *)
(* state offers what the contract demands.  An offer may be kept (woff,    *)
(* roff) while the other side goes on, and is committed later.             *)
(***************************************************************************)
EXTENDS Ring
CONSTANT MaxCap
VARIABLES cap, rp, use, q, woff, roff
vars == <<cap, rp, use, q, woff, roff>>
Init == cap \in 0..MaxCap /\ rp = 0 /\ use = 0 /\ q = <<>> /\ woff = <<>> /\ roff = <<>>
Writing == IF use = cap THEN <<>>
           ELSE LET wp == (rp + use) % cap
                    upper == cap - wp
                    space == cap - use
                IN IF space <= upper THEN <<<<wp, space>>>>
                   ELSE <<<<wp, upper>>, <<0, space - upper>>>>
Reading == IF use = 0 THEN <<>>
           ELSE IF use <= cap - rp THEN <<<<rp, use>>>>
           ELSE <<<<rp, cap - rp>>, <<0, use - (cap - rp)>>>>
Commit(ps, n) == /\ n <= Sum(ps) /\ q' = Written(q, ps, n) /\ use' = use + n
                 /\ woff' = <<>> /\ UNCHANGED <<cap, rp, roff>>
Take(m, n) == /\ n <= m /\ q' = Taken(q, n) /\ rp' = (rp + n) % cap /\ use' = use - n
              /\ roff' = <<>> /\ UNCHANGED <<cap, woff>>
Put(n) == cap > 0 /\ Commit(Writing, n)
Get(n) == cap > 0 /\ Take(use, n)
KeepW == woff = <<>> /\ woff' = Writing /\ UNCHANGED <<cap, rp, use, q, roff>>
PutKept(n) == cap > 0 /\ woff # <<>> /\ Commit(woff, n)
KeepR == roff = <<>> /\ roff' = Reading /\ UNCHANGED <<cap, rp, use, q, woff>>
GetKept(n) == cap > 0 /\ roff # <<>> /\ Take(Sum(roff), n)
Next == KeepW \/ KeepR \/ \E n \in 0..MaxCap : Put(n) \/ Get(n) \/ PutKept(n) \/ GetKept(n)
Spec == Init /\ [][Next]_vars
Offers == WriteOK(Writing, q, cap) /\ ReadOK(Reading, q)
Kept == /\ Disjoint(woff, q) /\ Sum(woff) <= cap - Sum(q)
        /\ Norm(First(q, Sum(roff))) = Norm(roff)
Stored == \A i \in DOMAIN Writing : Inside(Writing[i], 0, cap)
=============================================================================
