-------------------------------- MODULE Ring --------------------------------
(***************************************************************************)
(* Contract of the circular buffer: a queue whose bytes live at places in  *)
(* a storage.  Pieces are <<first place, length>>.  The content is the     *)
(* sequence of places in order, kept as pieces.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Sum(_)
Sum(ps) == IF ps = <<>> THEN 0 ELSE ps[1][2] + Sum(Tail(ps))
\* adjacent pieces joined, empty ones dropped
RECURSIVE Norm(_)
Norm(ps) ==
    IF ps = <<>> THEN <<>>
    ELSE LET r == Norm(Tail(ps)) IN
         IF ps[1][2] = 0 THEN r
         ELSE IF r # <<>> /\ ps[1][1] + ps[1][2] = r[1][1]
              THEN <<<<ps[1][1], ps[1][2] + r[1][2]>>>> \o Tail(r)
              ELSE <<ps[1]>> \o r
RECURSIVE First(_, _)      \* the first n places
First(ps, n) ==
    IF n = 0 \/ ps = <<>> THEN <<>>
    ELSE IF ps[1][2] <= n THEN <<ps[1]>> \o First(Tail(ps), n - ps[1][2])
    ELSE <<<<ps[1][1], n>>>>
RECURSIVE Drop(_, _)       \* without the first n places
Drop(ps, n) ==
    IF n = 0 \/ ps = <<>> THEN ps
    ELSE IF ps[1][2] <= n THEN Drop(Tail(ps), n - ps[1][2])
    ELSE <<<<ps[1][1] + n, ps[1][2] - n>>>> \o Tail(ps)
Apart(p, q) == p[1] + p[2] <= q[1] \/ q[1] + q[2] <= p[1]
Inside(p, lo, hi) == p[1] >= lo /\ p[1] + p[2] <= hi

Pieces(ps) == Len(ps) <= 2 /\ \A i \in DOMAIN ps : ps[i][2] > 0
Disjoint(ps, qs) == \A i \in DOMAIN ps, j \in DOMAIN qs : Apart(ps[i], qs[j])
\* what may be offered for writing and for reading with content q
WriteOK(ps, q, cap) == /\ Pieces(ps) /\ Sum(ps) = cap - Sum(q) /\ Disjoint(ps, q)
                       /\ \A i, j \in DOMAIN ps : i # j => Apart(ps[i], ps[j])
ReadOK(ps, q) == Pieces(ps) /\ Norm(ps) = Norm(q)
Written(q, ps, n) == Norm(q \o First(ps, n))
Taken(q, n) == Norm(Drop(q, n))
=============================================================================
